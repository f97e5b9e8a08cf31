"""B04: ledger of a turn.  Behaviours come from TLC (GenTurns, simulation on the 24-point board) and from seeded random
histories; the real MoveFactory executes them and TLC validates every recorded state."""
import json, os
import vgen
LEVEL = "model_checking"


def starts(ctx, n):
    rng = ctx.rng
    return [dict(pos=vgen.position(rng), who=rng.randint(0, 1), rolled=vgen.roll(rng)) for _ in range(n)]


def from_spec(ctx):
    st = starts(ctx, ctx.pick(150, 600))
    path = os.path.join(ctx.work, "starts.ndjson")
    with open(path, "w") as f:
        for s in st:
            f.write(json.dumps(s) + "\n")
    got = ctx.mc("GenTurns", workers=1, env={"VSTARTS": path}, timeout=800,
                 extra=["-simulate", "num=%d" % ctx.pick(500, 4000), "-depth", "9", "-seed", str(ctx.seed)])
    seen, jobs = set(), []
    for g in got:
        k = json.dumps(g)
        if k not in seen:
            seen.add(k)
            s = st[g["id"] - 1]
            jobs.append(dict(op="ledger", pos=s["pos"], who=s["who"], rolled=s["rolled"], events=[dict(op="step", pm=p) for p in g["hist"]]))
    ctx.notes["spec_behaviours_replayed"] = len(jobs)
    if len(jobs) < 50:
        raise Exception("GenTurns produced only %d behaviours" % len(jobs))
    return jobs


def random_jobs(ctx, n):
    rng = ctx.rng
    jobs = []
    for s in starts(ctx, n):
        pos, w, rolled = s["pos"], s["who"], s["rolled"]
        av, mv, ev = vgen.dice(rolled), [], []
        for _ in range(rng.randint(3, 12) if rng.random() < .95 else 40):
            c = rng.random()
            cand = [x for d in sorted(set(av)) for x in vgen.steps(pos, w, d)]
            if c < .5 and cand:
                hits = [x for x in cand if x["hit"] or x["src"] == 24 or x["dest"] == -1]
                pm = rng.choice(hits) if hits and rng.random() < .5 else rng.choice(cand)
                ev.append(dict(op="step", pm=pm))
                pos = vgen.apply(pos, w, pm); av.remove(pm["die"]); mv.append(pm)
            elif c < .72 and mv:
                pm = vgen.inverse(mv.pop())
                ev.append(dict(op="step", pm=pm))
                pos = vgen.apply(pos, w, pm); av.append(pm["die"])
            elif c < .78 and cand:
                # a whole move at once
                pms, p2, a2 = [], pos, list(av)
                for _ in range(rng.randint(1, 3)):
                    cc = [x for d in sorted(set(a2)) for x in vgen.steps(p2, w, d)]
                    if not cc: break
                    pm = rng.choice(cc); pms.append(pm); p2 = vgen.apply(p2, w, pm); a2.remove(pm["die"])
                ev.append(dict(op="add", pms=pms)); pos, av = p2, a2; mv += pms
            elif c < .84 and mv:
                k = rng.randint(1, len(mv))
                pms = [vgen.inverse(x) for x in reversed(mv[-k:])]
                for pm in pms:
                    pos = vgen.apply(pos, w, pm); av.append(pm["die"])
                del mv[-k:]
                ev.append(dict(op="add", pms=pms))
            elif c < .93:
                missing = [d for d in range(1, 7) if d not in av]
                cc = [x for d in missing for x in vgen.steps(pos, w, d)]
                if cc:
                    ev.append(dict(op="nodie", pm=rng.choice(cc)))
                else:
                    ev.append(dict(op="consume", die=rng.choice(missing)))
            elif c < .97:
                ev.append(dict(op="consume", die=rng.choice([d for d in range(1, 7) if d not in av])))
            else:
                ev.append(dict(op="clone"))
        if rng.random() < .4:      # undo everything
            while mv:
                pm = vgen.inverse(mv.pop())
                ev.append(dict(op="step", pm=pm))
        jobs.append(dict(op="ledger", pos=s["pos"], who=w, rolled=rolled, events=ev))
    return jobs


def pairs(ctx, n):
    """steps recorded in any order, some of them differing from the reverse of another in one thing only"""
    rng = ctx.rng
    out = []
    for _ in range(n):
        die = rng.randint(1, 6)
        few = [dict(die=d, src=s, dest=s - d if s - d >= -1 else -1, hit=h) for d, s, h in [(rng.choice([die, rng.randint(1, 6)]), rng.randint(0, 24), rng.random() < .4) for _ in range(3)]]
        pms = []
        for _ in range(rng.randint(2, 12)):
            a = dict(rng.choice(pms) if pms and rng.random() < .6 else rng.choice(few))
            if rng.random() < .5:
                a = vgen.inverse(a)
            if rng.random() < .35:
                k = rng.choice(["die", "src", "dest", "hit"])
                a[k] = (not a[k]) if k == "hit" else a[k] % 6 + 1 if k == "die" else rng.randint(-1, 24)
            pms.append(a)
        out.append(dict(op="record", pms=pms, cut=rng.randint(0, len(pms))))
    return out


def run(ctx):
    def model():
        ctx.mc("MCMoves", ctx.pick("MCMoves.cfg", "MCMovesT.cfg"), workers=ctx.pick(2, 4), min_states=1000)

    def bind():
        js = ctx.replay or from_spec(ctx) + random_jobs(ctx, ctx.pick(700, 4000)) + pairs(ctx, ctx.pick(500, 5000))
        recs = []
        for r in ctx.drive("model", js, procs=3):
            recs += r["trace"]
        ctx.sample(recs[:4])
        ctx.judge("JudgeMoves", recs, split=lambda r: r["op"] in ("begin", "record"))
    ctx.run_parallel(model, bind)
