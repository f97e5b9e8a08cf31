"""E02: database bytes.  MCDbByte shows the encoding is a bijection, shared by mirrored boards, and the distance a metric's square;
real boards are encoded, decoded, compared and attacked, and TLC judges bytes, boards and distances."""
import vgen
from checks.E01 import board
LEVEL = "model_checking"
ASSUMPTIONS = ["positions with the turn undecided (CENTER) have no byte form"]


def mirror(b):
    return dict(b, position=[b["position"][1], b["position"][0]], on_action=1 - b["on_action"])


def near(rng, b):
    """one chequer moved"""
    p = [list(x) for x in b["position"]]
    for _ in range(30):
        w = rng.randint(0, 1)
        src = rng.choice([i for i in range(25) if p[w][i]] or [0])
        dst = rng.randint(0, 24)
        if p[w][src] and (dst == 24 or not p[1 - w][23 - dst]):
            p[w][src] -= 1
            p[w][dst] += 1
            break
    return dict(b, position=p)


def run(ctx):
    def model():
        ctx.mc("MCDbByte", ctx.pick("MCDbByte.cfg", "MCDbByteT.cfg"), workers=3, min_states=1000, timeout=850)

    def bind():
        jobs = ctx.replay
        if not jobs:
            jobs = []
            for _ in range(ctx.pick(700, 8000)):
                b = board(ctx.rng)
                c = board(ctx.rng)
                jobs.append(dict(op="db", boards=[b, mirror(b), near(ctx.rng, b), c, near(ctx.rng, c)]))
        recs = []
        for r in ctx.drive("enc", jobs, procs=4):
            recs += r["trace"]
        ctx.sample(recs[:1])
        ctx.judge("JudgeDbByte", recs)
    ctx.run_parallel(model, bind)
