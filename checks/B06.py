"""B06: picking up the dice.  The rule is spelled out in Bg (CompletePlay), proved on the small board to be the
'use as many dice as possible, then the larger one' rule, and compared with the code on seeded plays."""
import vgen
LEVEL = "model_checking"


def jobs(ctx, n):
    rng = ctx.rng
    out, stuck = [], 0
    while len(out) < n:
        pos, w, rolled = vgen.position(rng, rng.choice([None, "blocked", "bar", "few", "outside", "endgame", "home", "blocked"])), rng.randint(0, 1), vgen.roll(rng)
        played = vgen.play(rng, pos, w, rolled, rng.choice([0, 1, 1, 2, 2, 4, 4]))
        now, av = pos, vgen.dice(rolled)
        for s in played:
            now = vgen.apply(now, w, s); av.remove(s["die"])
        more = any(vgen.steps(now, w, d) for d in set(av))
        # mostly the interesting plays: stuck with a die left
        if (more or not av) and rng.random() < .75:
            continue
        out.append(dict(op="pickup", pos=pos, who=w, rolled=rolled, played=played))
    return out


def run(ctx):
    def model():
        ctx.mc("MCMoves", ctx.pick("MCMoves.cfg", "MCMovesT.cfg"), workers=ctx.pick(2, 4), min_states=1000)

    def bind():
        recs = ctx.drive("model", ctx.replay or jobs(ctx, ctx.pick(2500, 15000)), procs=3)
        ctx.notes["answers"] = {k: sum(1 for r in recs if r["legal"] == k) for k in ("yes", "no")}
        ctx.notes["illegal_though_stuck"] = sum(1 for r in recs if r["legal"] == "no" and not any(
            vgen.steps(r["now"], r["who"], d) for d in set(r["rolled"])))
        for r in recs[:2]: ctx.sample(r)
        ctx.judge("JudgeMoves", recs)
    ctx.run_parallel(model, bind)
