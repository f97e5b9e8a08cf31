"""Runner shared by all checks: drives the real code (under Jython) and TLC.

A check works in three stages
  1. TLC explores the TLA+ model exhaustively within bounds and checks its invariants (ctx.mc);
     many models also print their states / behaviours, which become inputs for stage 2;
  2. the real code executes those behaviours and seeded random ones (ctx.drive), a Jython driver
     recording only public, observable values;
  3. TLC judges every recorded trace against the specification (ctx.judge).
"""
import json, os, random, re, shutil, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("BGLIB_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
LIGHT = int(os.environ.get("VERIF_LIGHT", "0"))     # tools/mutate.py: every n-th job only and no model checking; never set for a real check
JUDGE_PROCS = 2 if LIGHT else 6


class Broken(Exception):
    """The code could not be driven or judged: on the unchanged tree this never happens."""


class Ctx(object):
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random("%s-%s" % (seed, prop))
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vchk-%s-" % prop)
        self.states = self.transitions = 0
        self.judged = self.judge_states = 0
        self.evaluations = 0
        self.samples = []
        self.failures = []          # (key, clause(s), record)
        self.notes = {}
        self.assumptions = []
        self.n = 0
        self.src = None

    thorough = property(lambda s: s.tier == "thorough")

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---------------------------------------------------------------- real code
    def source(self):
        """A private copy of the working tree's Python (and style) files, free of stale class files."""
        if self.src is None:
            self.src = os.path.join(self.work, "src")
            def ignore(d, names):
                return [n for n in names if n.endswith(".class") or n.endswith(".pyc")
                        or n.endswith(".png") or n.endswith("_autogen_test.py")]
            shutil.copytree(os.path.join(REPO, "bglib"), os.path.join(self.src, "bglib"), ignore=ignore, symlinks=True)
        return self.src

    def drive(self, area, jobs, procs=1, timeout=400, stub=False):
        """Run jobs (dicts) through harness/drv_<area>.py; returns one record per job, in order.
        A job the driver could not finish (hang, hard crash) makes a failure of its own."""
        jobs = list(jobs)[::LIGHT or 1]
        if not jobs:
            return []
        src = self.source()
        procs = max(1, min(procs, (len(jobs) + 199) // 200, 7))
        step = (len(jobs) + procs - 1) // procs
        parts = [jobs[i:i + step] for i in range(0, len(jobs), step)]
        self.n += 1
        n = self.n

        def one(ip):
            i, part = ip
            fin = os.path.join(self.work, "jobs-%d-%d.ndjson" % (n, i))
            fout = os.path.join(self.work, "obs-%d-%d.ndjson" % (n, i))
            with open(fin, "w") as f:
                for j in part:
                    f.write(json.dumps(j) + "\n")
            env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "CLASSPATH", "JYTHONPATH")}
            path = ["/opt/bgsite", src]
            if stub:
                path.append(os.path.join(HARNESS, "stubs"))
            env["JYTHONPATH"] = ":".join(path)
            env["BGLIB_VERIF_SRC"] = src
            env["TMPDIR"] = self.work
            log = os.path.join(self.work, "drv-%d-%d.log" % (n, i))
            rc = "timeout"
            with open(log, "w") as lf:
                try:
                    p = subprocess.run(["/opt/jy/jy", "-B", os.path.join(HARNESS, "main.py"), area, fin, fout],
                                       env=env, cwd=self.work, stdin=subprocess.DEVNULL, stdout=lf,
                                       stderr=subprocess.STDOUT, timeout=timeout)
                    rc = p.returncode
                except subprocess.TimeoutExpired:
                    pass
            recs = []
            if os.path.exists(fout):
                with open(fout) as f:
                    for line in f:
                        if line.endswith("\n"):
                            recs.append(json.loads(line))
            if len(recs) != len(part):
                with open(log) as f:
                    tail = f.read()[-1500:]
                self.fail("driver-" + area, ["driver stopped (%s) at job %d of %d: %s" % (rc, len(recs), len(part), tail)],
                          part[len(recs)] if len(recs) < len(part) else {})
            return recs
        with ThreadPoolExecutor(len(parts)) as ex:
            out = [r for rs in ex.map(one, enumerate(parts)) for r in rs]
        self.evaluations += len(out)
        good = []
        for r in out:
            if "crash" in r:
                self.fail("crash", [r["crash"][-1500:]], r.get("job", {}))
            else:
                good.append(r)
        return good

    # ---------------------------------------------------------------- TLC
    def _tlc(self, module, cfg, env=None, workers=1, timeout=600, heap="3g", extra=()):
        self.n += 1
        meta = os.path.join(self.work, "tlc-%d-%s-%d" % (self.n, module, random.getrandbits(30)))
        os.makedirs(meta)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % max(1, min(workers, 4)), "-Xmx" + heap, "-Xss32m",
               "-Djava.io.tmpdir=" + meta, "-cp", TLA,
               "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers),
               "-config", os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        try:
            p = subprocess.run(cmd, env=e, cwd=meta, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout, universal_newlines=True, errors="replace")
            out, rc = p.stdout, p.returncode
        except subprocess.TimeoutExpired as x:
            out, rc = (x.stdout or b"").decode("utf8", "replace") if isinstance(x.stdout, bytes) else (x.stdout or ""), "timeout"
        shutil.rmtree(meta, ignore_errors=True)
        return rc, out

    def mc(self, module, cfg=None, workers=4, timeout=600, heap="6g", env=None, extra=(), min_states=1):
        """Exhaustive model checking (or -simulate) of a design model; a counterexample there is a
        machinery error, not a violation by the code.  Returns the values printed as "@@" lines."""
        cfg = cfg or module + ".cfg"
        if LIGHT and "-simulate" not in extra and module != "MCProtocol":
            return []
        rc, out = self._tlc(module, cfg, env, workers, timeout, heap, extra)
        m = re.findall(r"(\d+) states generated.*?(\d+) distinct states found", out)
        sim = "-simulate" in extra
        if rc != 0:
            sys.stdout.write(out[-1500:])
            raise Broken("model %s (%s) failed: rc=%s" % (module, cfg, rc))
        if m:
            gen, dist = int(m[-1][0]), int(m[-1][1])
            self.transitions += gen
            self.states += dist
            if dist < min_states:
                raise Broken("model %s explored only %d states" % (module, dist))
            self.notes.setdefault("models", {})[cfg] = dict(distinct_states=dist, states_generated=gen)
        elif not sim:
            raise Broken("model %s: no statistics" % module)
        printed = []
        for line in out.splitlines():
            if line.startswith('"@@'):
                printed.append(json.loads(json.loads(line)[2:]))
        return printed

    def judge(self, module, records, traces=None, chunk=None, timeout=700, heap="3g", split=None, env=None):
        """Have TLC decide every record against the specification.  `split(rec)` true = a record that may start a chunk
        (start of a trace).  Registers failures; returns their number."""
        records = list(records)
        if not records:
            return 0
        starts = [i for i, r in enumerate(records) if split is None or split(r)]
        assert starts and starts[0] == 0
        want = max(1, (len(records) + JUDGE_PROCS - 1) // JUDGE_PROCS)
        if chunk:
            want = min(want, chunk)
        want = max(want, 20)
        bounds, last = [0], 0
        for s in starts:
            if s - last >= want:
                bounds.append(s)
                last = s
        bounds.append(len(records))
        parts = [(bounds[i], records[bounds[i]:bounds[i + 1]]) for i in range(len(bounds) - 1)]
        self.n += 1
        n = self.n

        def one(part):
            base, recs = part
            path = os.path.join(self.work, "trace-%d-%d.ndjson" % (n, base))
            with open(path, "w") as f:
                for r in recs:
                    f.write(json.dumps(r) + "\n")
            e = {"VTRACE": path}
            e.update(env or {})
            rc, out = self._tlc(module, module + ".cfg", e, 1, timeout, heap)
            os.unlink(path)
            bad, end = [], None
            flat = re.sub(r"\s+", " ", out)
            for mm in re.finditer(r'<< ?"@BAD", (\d+), \{(.*?)\} ?>>', flat):
                bad.append((int(mm.group(1)), re.findall(r'"([^"]*)"', mm.group(2))))
            if len(bad) != flat.count('"@BAD"'):
                raise Broken("cannot parse the judge's output: " + flat[:2000])
            mm = re.search(r'<< ?"@END", (\d+) ?>>', flat)
            end = int(mm.group(1)) if mm else None
            return base, recs, rc, out, bad, end
        nbad = 0
        with ThreadPoolExecutor(JUDGE_PROCS) as ex:
            results = list(ex.map(one, parts))
        for base, recs, rc, out, bad, end in results:
            for i, clauses in bad:
                nbad += 1
                self.fail(module, clauses, recs[i - 1], trace=self._trace(recs, i - 1, split))
            self.judged += len(recs)
            m = re.findall(r"(\d+) states generated.*?(\d+) distinct states found", out)
            if m:
                self.judge_states += int(m[-1][1])
            if end != len(recs):
                m = re.search(r"@BAD|Error:(.*)", out, re.S)
                nbad += 1
                at = None
                mm = re.findall(r"/\\ l = (\d+)", out)
                if mm:
                    at = int(mm[-1])
                self.fail(module, ["record could not be evaluated by the specification (rc=%s): %s" % (rc, out[-1500:])],
                          recs[min(at, len(recs) - 1)] if at is not None else recs[0])
        return nbad

    def accept(self, module, records, timeout=700, heap="4g"):
        """Trace validation proper: each record holds a whole run; TLC searches a behaviour of the specification (with
        internal steps of its own choice) that explains it and prints the number of every run it accepts."""
        records = list(records)
        n = max(1, (len(records) + JUDGE_PROCS - 1) // JUDGE_PROCS)
        parts = [records[i:i + n] for i in range(0, len(records), n)]

        def one(part):
            path = os.path.join(self.work, "runs-%d.ndjson" % random.getrandbits(40))
            with open(path, "w") as f:
                for r in part:
                    f.write(json.dumps(r) + "\n")
            rc, out = self._tlc(module, module + ".cfg", {"VTRACE": path}, 1, timeout, heap)
            ok = set()
            for line in out.splitlines():
                if line.startswith('"@@'):
                    ok.add(json.loads(json.loads(line)[2:])["accepted"])
            return part, ok, rc, out
        with ThreadPoolExecutor(JUDGE_PROCS) as ex:
            for part, ok, rc, out in ex.map(one, parts):
                m = re.findall(r"(\d+) states generated.*?(\d+) distinct states found", out)
                if m:
                    self.judge_states += int(m[-1][1])
                self.judged += len(part)
                for i, r in enumerate(part, 1):
                    if i not in ok:
                        why = "the run is not a behaviour of the specification" if rc == 0 else "TLC failed (rc=%s): %s" % (rc, out[-800:])
                        self.fail(module, [why], r)

    def _trace(self, recs, i, split):
        if split is None:
            return None
        j = i
        while j > 0 and not split(recs[j]):
            j -= 1
        return recs[j:i + 1]

    def run_parallel(self, *thunks):
        with ThreadPoolExecutor(len(thunks)) as ex:
            return [f.result() for f in [ex.submit(t) for t in thunks]]

    # ---------------------------------------------------------------- results
    def fail(self, where, clauses, record, trace=None):
        self.failures.append((where, clauses, record, trace))

    def sample(self, rec, limit=3):
        if len(self.samples) < limit:
            s = json.dumps(rec)
            self.samples.append(rec if len(s) < 3000 else s[:3000] + "...")


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop and k["status"] == "known"]


def matches(k, where, clauses, record):
    """A finding names the clauses it may explain and the exact inputs (field values) that fail."""
    if k.get("where") and k["where"] != where:
        return False
    if not set(clauses) <= set(k["clauses"]):
        return False
    return any(all(_get(record, f) == v for f, v in inp.items()) for inp in k["inputs"])


def _get(r, dotted):
    for p in dotted.split("."):
        if not isinstance(r, dict) or p not in r:
            return None
        r = r[p]
    return r


def run(prop, tier, replay=None):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(prop, tier, seed)
    ctx.replay = None
    if replay:
        with open(replay) as f:
            ctx.replay = json.load(f)
    mod = __import__("checks." + prop, fromlist=["x"])
    broken = None
    try:
        try:
            mod.run(ctx)
        except Broken as x:
            broken = str(x)
        except Exception:
            broken = traceback.format_exc()
        known = known_findings(prop)
        seen, new = {}, []
        for where, clauses, rec, trace in ctx.failures:
            for k in known:
                if matches(k, where, clauses, rec):
                    seen[k["id"]] = k
                    break
            else:
                new.append((where, clauses, rec, trace))
        for k in known:
            print("KNOWN-FINDING: property=%s %s%s" % (prop, k["what"], "" if k["id"] in seen else " (not exercised in this run)"))
        ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "model_checking"),
                  coverage=dict(states=ctx.states + ctx.judge_states, transitions=ctx.transitions + ctx.judge_states,
                                traces_validated_against_impl=ctx.judged,
                                evaluations=ctx.evaluations,
                                samples=ctx.samples or ["none"],
                                model_states=ctx.states, judge_states=ctx.judge_states, **ctx.notes),
                  assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + ctx.assumptions,
                  wall_s=round(time.time() - ctx.t0, 2), violations=len(new))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        if broken and not new:
            print("check machinery failed: %s" % broken)
            new = [("machinery", [broken], {}, None)]
        if new:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%s.json" % (prop, tier))
            with open(path, "w") as f:
                json.dump([dict(where=w, clauses=c, record=r, trace=t) for w, c, r, t in new[:40]], f, indent=1)
            for w, c, r, t in new[:3]:
                print("  %s: %s  %s" % (w, "; ".join(c)[:700], json.dumps(r)[:250]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        print("OK property=%s tier=%s model_states=%d traces=%d evaluations=%d wall=%.1fs" % (
            prop, tier, ctx.states, ctx.judged, ctx.evaluations, time.time() - ctx.t0))
        return 0
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", ctx.work)
        else:
            shutil.rmtree(ctx.work, ignore_errors=True)
