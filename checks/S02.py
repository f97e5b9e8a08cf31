"""S02: chances and stakes.  Rating.tla specifies them in fixed point (values where the exponent is a multiple of 1/8, and the law by
which rating gaps add up); MCRating checks that specification, TLC compares the real functions with it."""
LEVEL = "model_checking"
ASSUMPTIONS = ["numbers are compared in fixed point to 1e-4 (exact relations such as the sum of stakes to 1e-9)"]


def jobs_(ctx):
    rng = ctx.rng
    out = []
    num = lambda x: x if rng.random() < .5 else float(x)
    # gap*sqrt(length)/2000 = k/8
    for root in (1, 2, 3, 5):
        for k in range(0, 17):
            if 250 * k % root == 0:
                for lo in (0, 800, 1000, 1500):
                    out.append(dict(op="chance", lo=num(lo), gap=250 * k // root, len=root * root, k=k))
    for _ in range(ctx.pick(700, 8000)):
        out.append(dict(op="chance", lo=num(rng.randint(0, 2000)), gap=rng.choice([0, 1, 2, rng.randint(0, 400), rng.randint(0, 2000)]), len=rng.randint(1, 64), k=-1))
        n = rng.randint(1, 16)
        top = int(700 / n ** .5)
        out.append(dict(op="law", lo=num(rng.randint(0, 2000)), a=rng.randint(0, top), b=rng.randint(0, top), len=n))
        # gaps and lengths whose exponents stay small enough for doubles to tell the chances apart
        out.append(dict(op="mono", lo=num(rng.randint(0, 2000)), len=rng.randint(1, 64), gaps=sorted(rng.sample(range(0, 2000), 8)) , gap=rng.randint(1, 1500),
                        lens=sorted(rng.sample(range(1, 64), 6))))
        av = rng.randint(800, 1500)
        out.append(dict(op="tourney", av=num(av), p=num(max(0, av + rng.choice([0, 0, 1, -1, rng.randint(-300, 300)]))), len=rng.choice([rng.randint(1, 13), rng.randint(1, 64)]), rounds=rng.choice([rng.randint(1, 5), rng.randint(1, 9), rng.randint(1, 20)]),
                        w=float(rng.randint(1, 500)), r=float(rng.randint(1, 200)), fee=float(rng.randint(1, 300))))
    return out


def run(ctx):
    def model():
        ctx.mc("MCRating", workers=2, min_states=1000)

    def bind():
        recs = ctx.drive("stat", ctx.replay or jobs_(ctx), procs=3)
        ctx.sample(recs[:1] + recs[-1:])
        ctx.judge("JudgeRating", recs)
    ctx.run_parallel(model, bind)
