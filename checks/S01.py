"""S01: knockout with lives.  MCTourney plays every pairing and result of small fields to the end (with liveness: one winner); real
tournaments with seeded luck are recorded round by round and every round validated by TLC."""
LEVEL = "model_checking"
ASSUMPTIONS = ["entrants start with at least one life"]


def jobs_(ctx):
    rng = ctx.rng
    out = []
    for i in range(ctx.pick(350, 5000)):
        if rng.random() < .25:
            n = rng.randint(2, 10)
            out.append(dict(op="knockout", n=n, entries=[], seed=rng.randint(0, 10 ** 6), rounds=n * 3 + 3))
        else:
            n = rng.choice([2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 15, 16, 23] if rng.random() < .93 else [32, 33, 40, 64])
            top = rng.choice([1, 1, 2, 3, 4]) if n > 9 or rng.random() < .8 else rng.choice([7, 12])
            names = rng.sample(["abcdefghijklmnopqrstuvwxyz"[i % 26] + "z" * (i // 26) for i in range(78)], n)
            es = [dict(p=p, lives=rng.randint(1, top), rating=rng.choice([1000, 1000, rng.randint(800, 1500), 500, 2500])) for p in names]
            out.append(dict(op="knockout", n=n, entries=es, seed=rng.randint(0, 10 ** 6), rounds=sum(e["lives"] for e in es) + 3))
    return out


def run(ctx):
    def model():
        ctx.mc("MCTourney", ctx.pick("MCTourney.cfg", "MCTourneyT.cfg"), workers=3, min_states=500, timeout=850)

    def bind():
        recs = []
        for r in ctx.drive("stat", ctx.replay or jobs_(ctx), procs=3):
            recs += r["trace"]
        ctx.sample(recs[:2])
        ctx.judge("JudgeTourney", recs, split=lambda r: r["op"] == "begin")
    ctx.run_parallel(model, bind)
