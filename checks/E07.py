"""E07: the author's own numbering of home-board positions.  MCNori shows that Number(t), how many positions come before t, leaves no gap and
repeats nothing; the real numbering and its inverse are judged by TLC on all small positions, the first and last of every chequer count, random ones
up to fifteen chequers and, in the thorough tier, on all 54264 numbers."""
import itertools
from math import comb
LEVEL = "model_checking"
ASSUMPTIONS = ["binomials and combination ranks come from a stand-in for the missing package `tonic` (harness/stubs/tonic), written after the module's own comments and tests"]


def rand_t(rng, c):
    t = [0] * 6
    how = rng.random()
    for _ in range(c):
        t[rng.randrange(6) if how < .6 else rng.choice([0, 5]) if how < .8 else rng.choice([2, 3])] += 1
    return t


def jobs_(ctx):
    rng = ctx.rng
    jobs, ts, ns = [], [], []
    small = [list(t) for t in itertools.product(range(ctx.pick(3, 5)), repeat=6) if sum(t) <= ctx.pick(3, 5)]
    ts += small
    for c in range(16):
        for i in range(6):
            t = [0] * 6
            t[i] = c
            ts.append(t)
            if c:
                u = list(t)
                u[i] -= 1
                u[rng.randrange(6)] += 1
                ts.append(u)
        n = comb(c + 6, 6)
        ns += [k for k in (n - 2, n - 1, n, n + 1) if 0 <= k < comb(21, 6)]
    for _ in range(ctx.pick(1500, 12000)):
        ts.append(rand_t(rng, rng.choice([15, 15, 14, rng.randint(0, 15)])))
    ns += range(comb(21, 6)) if ctx.pick(0, 1) else [rng.randrange(comb(21, 6)) for _ in range(1500)]
    for i in range(0, len(ts), 40):
        jobs.append(dict(op="t2k", ts=ts[i:i + 40]))
    for i in range(0, len(ns), 40):
        jobs.append(dict(op="k2t", ns=ns[i:i + 40]))
    return jobs


def run(ctx):
    def model():
        ctx.mc("MCNori", ctx.pick("MCNori.cfg", "MCNoriT.cfg"), workers=2, min_states=20, timeout=850)

    def bind():
        recs = ctx.drive("enc", ctx.replay or jobs_(ctx), procs=3, stub=True)
        ctx.sample(recs[-1:])
        ctx.judge("JudgeNori", recs)
    ctx.run_parallel(model, bind)
