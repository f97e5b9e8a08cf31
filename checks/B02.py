"""B02: partial moves.  Model: MCMoves (exhaustive on a small board).  Binding: every step generated by the
spec's rules on random 24-point positions is made, reversed and flipped in the real code; TLC judges."""
import vgen
LEVEL = "model_checking"


def jobs(ctx, n):
    rng = ctx.rng
    out = []
    while len(out) < n:
        pos, w = vgen.position(rng), rng.randint(0, 1)
        rolled = vgen.roll(rng)
        if rng.random() < .5:
            for s in vgen.play(rng, pos, w, rolled, 3):
                pos = vgen.apply(pos, w, s)
        cand = [s for d in range(1, 7) for s in vgen.steps(pos, w, d)]
        if not cand:
            continue
        hits = [s for s in cand if s["hit"]]
        offs = [s for s in cand if s["dest"] < 0]
        ents = [s for s in cand if s["src"] == 24]
        for pool in (hits, offs, ents, cand):
            if pool:
                pm = rng.choice(pool)
                mv = vgen.play(rng, pos, w, rolled, 4)
                out.append(dict(op="apply", pos=pos, who=w, rolled=rolled, pm=pm, mv=mv,
                                extra=dict(score=[rng.randint(0, 3), rng.randint(0, 3)], match_length=7, cube_in_logarithm=rng.randint(0, 3),
                                           cube_owner=rng.choice([0, 1, 3]), doubled=False, crawford=rng.random() < .2)))
    return out


def flips(ctx, n):
    rng = ctx.rng
    return [dict(op="flip", f=dict(position=vgen.position(rng), cube_in_logarithm=rng.randint(0, 6), cube_owner=rng.choice([0, 1, 3]), on_action=rng.choice([0, 1]),
                                   on_inner_action=rng.choice([0, 1]), crawford=rng.random() < .5, game_state=rng.randint(0, 4), doubled=rng.random() < .5,
                                   resign_offer=rng.randint(0, 3), rolled=vgen.roll(rng), match_length=rng.randint(0, 25), score=[rng.randint(0, 9), rng.randint(0, 9)]))
            for _ in range(n)]


def run(ctx):
    def model():
        ctx.mc("MCMoves", ctx.pick("MCMoves.cfg", "MCMovesT.cfg"), workers=ctx.pick(3, 6), min_states=1000)

    def bind():
        recs = ctx.drive("model", ctx.replay or jobs(ctx, ctx.pick(3000, 20000)) + flips(ctx, ctx.pick(300, 1500)), procs=3)
        for r in recs[:2]:
            ctx.sample(r)
        ctx.judge("JudgeMoves", recs)
    ctx.run_parallel(model, bind)
