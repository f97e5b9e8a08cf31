"""B05: suggestions of the move factory, asked in bulk on seeded positions and partially played rolls; TLC decides each answer."""
import vgen
LEVEL = "model_checking"


def jobs(ctx, n):
    rng = ctx.rng
    out = []
    while len(out) < n:
        pos, w, rolled = vgen.position(rng), rng.randint(0, 1), vgen.roll(rng)
        played = vgen.play(rng, pos, w, rolled, rng.choice([0, 0, 0, 1, 1, 2, 3, 4]))
        now, av = pos, vgen.dice(rolled)
        for s in played:
            now = vgen.apply(now, w, s); av.remove(s["die"])
        mine = [i for i in range(25) if now[w][i]]
        qs = [dict(q="src", a=i, av=rng.random() < .5) for i in mine + rng.sample(range(25), 3)]
        qs += [dict(q="dest", b=i, av=rng.random() < .5) for i in [-1] + rng.sample(range(24), 8) + [23, 20]]
        for i in mine:
            for d in sorted(set([sum(av[:k]) for k in range(1, len(av) + 1)] + av + [rng.randint(1, 12)])):
                if i - d >= 0:
                    qs.append(dict(q="multi", a=i, b=i - d))
                elif i < 12:
                    qs.append(dict(q="multi", a=i, b=-1))
        for s in played:
            for t in played:
                if t["src"] > s["dest"]:
                    qs.append(dict(q="undo", a=s["dest"], b=t["src"]))
            qs.append(dict(q="undo", a=s["dest"], b=min(24, s["dest"] + rng.randint(1, 9))))
        cand = [s for d in set(av) for s in vgen.steps(now, w, d) if s["dest"] >= 0]
        for s in cand[:4]:
            qs.append(dict(q="point", b=s["dest"]))
        qs.append(dict(q="point", b=rng.randint(0, 23)))
        rng.shuffle(qs)
        out.append(dict(op="query", pos=pos, who=w, rolled=rolled, played=played, queries=qs[:40]))
    return out


def run(ctx):
    def model():
        ctx.mc("MCMoves", "MCMoves.cfg", workers=2, min_states=1000)

    def bind():
        recs = ctx.drive("model", ctx.replay or jobs(ctx, ctx.pick(700, 6000)), procs=3)
        ctx.notes["queries"] = sum(len(r["out"]) for r in recs)
        ctx.notes["suggestions"] = sum(1 for r in recs for q in r["out"] if q["r"]["pms"])
        if recs: ctx.sample(dict(recs[0], out=recs[0]["out"][:3]))
        ctx.judge("JudgeMoves", recs)
    ctx.run_parallel(model, bind)
