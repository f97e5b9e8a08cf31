"""B03: movement predicates, on every point and die of random and boundary positions, judged by TLC against Bg."""
import vgen
LEVEL = "model_checking"


def jobs(ctx, n):
    rng = ctx.rng
    out = []
    # every bear-off situation with up to two chequers of the mover on points 0..7 and the bar
    places = [0, 1, 2, 3, 4, 5, 6, 7, 23, 24]
    for i, a in enumerate(places):
        for b in places[i:]:
            for w in (0, 1):
                pos = [[0] * 25, [0] * 25]
                pos[w][a] += 1; pos[w][b] += 1
                out.append(dict(op="pred", pos=pos, who=w, rolled=[0, 0], frozen=(a + b) % 2 == 0))
    # home boards by occupancy mask
    for mask in range(64):
        pos = [[0] * 25, [0] * 25]
        w = mask % 2
        for k in range(6):
            if mask >> k & 1:
                pos[w][k] = 1 + (mask + k) % 3
        pos[1 - w][24] = mask % 3
        out.append(dict(op="pred", pos=pos, who=w, rolled=[1, 2], frozen=mask % 3 == 0))
    while len(out) < n:
        out.append(dict(op="pred", pos=vgen.position(rng), who=rng.randint(0, 1), rolled=vgen.roll(rng), frozen=rng.random() < .5))
    return out


def run(ctx):
    def model():
        ctx.mc("MCMoves", "MCMoves.cfg", workers=3, min_states=1000)

    def bind():
        recs = ctx.drive("model", ctx.replay or jobs(ctx, ctx.pick(3000, 25000)), procs=3)
        for r in recs[:1] + recs[-1:]:
            ctx.sample(r)
        ctx.judge("JudgeMoves", recs)
    ctx.run_parallel(model, bind)
