"""E05: bear-off index, parameters and record files.  MCBearoff shows Index is one-to-one without gaps; the real index of every small
position and of random 6- to 10-point ones, real parameters and histories of reads of scratch files are judged by TLC."""
import itertools, struct
import vgen
LEVEL = "model_checking"
ASSUMPTIONS = ["binomials come from a stand-in for the missing package `tonic` (harness/stubs/tonic)", "record numbers are not negative"]


def parts(p, c):
    return [list(t) for t in itertools.product(range(c + 1), repeat=p) if sum(t) <= c]


def jobs_(ctx):
    rng = ctx.rng
    jobs = []
    for p in range(1, ctx.pick(6, 7)):
        for c in range(0, ctx.pick(6, 8)):
            ts = parts(p, c)
            if len(ts) > ctx.pick(300, 1800): continue
            for cc in (c, c + rng.randint(0, 9)):
                for i in range(0, len(ts), 60):
                    jobs.append(dict(op="index", p=p, c=cc, ts=ts[i:i + 60]))
    for _ in range(ctx.pick(150, 2500)):
        p, c = rng.choice([6, 6, 6, 7, 8, 10]), rng.choice([6, 10, 15, 15])
        if p > 8: c = min(c, 12)
        ts = []
        for _ in range(12):
            t = [0] * p
            for _ in range(rng.randint(0, c)): t[rng.randrange(p)] += 1
            ts.append(t)
        jobs.append(dict(op="index", p=p, c=c, ts=ts))
    jobs.append(dict(op="index", p=6, c=9, ts=[[0, 0, 1, 2, 5, 1]]))
    for _ in range(ctx.pick(500, 5000)):
        p = vgen.position(rng, rng.choice(["home", "endgame", "ace", "few", "contact"]))
        if rng.random() < .2: p[rng.randint(0, 1)] = [0] * 25
        jobs.append(dict(op="param", a=p[0], b=p[1]))
    for _ in range(ctx.pick(150, 1500)):
        dl = rng.choice([16, 16, 2, 3, 7, 8, 32])
        n = rng.randint(0, 12) if rng.random() < .9 else rng.choice([40, 130, 300])
        vals = []
        if dl == 16:
            vals = [[rng.randint(-800, 800) for _ in range(4)] for _ in range(n)]
            data = [b for v in vals for b in struct.pack("=ffff", *[x / 8.0 for x in v])]
        else:
            data = [rng.randint(0, 255) for _ in range(n * dl)]
        data += [rng.randint(0, 255) for _ in range(rng.choice([0, 0, 1, dl - 1]))]
        reads = [rng.randint(0, n + 2) for _ in range(rng.randint(1, 12))] + [n, 0]
        jobs.append(dict(op="read", data=data, dl=dl, reads=reads, vals=vals))
    for dl in ctx.pick([16], [16, 16, 32, 2]):      # larger than 64 KB
        n = 70000 // dl + rng.randint(0, 40)
        data = [rng.randint(0, 255) for _ in range(n * dl)]
        jobs.append(dict(op="read", data=data, dl=dl, reads=[65536 // dl + rng.randint(-1, 5), rng.randrange(n), n - 1, n, 0, 65536 // dl], vals=[]))
    return jobs


def run(ctx):
    def model():
        ctx.mc("MCBearoff", ctx.pick("MCBearoff.cfg", "MCBearoffT.cfg"), workers=2, min_states=20, timeout=850)

    def bind():
        jobs = ctx.replay or jobs_(ctx)
        recs = ctx.drive("enc", jobs, procs=3, stub=True)
        ctx.sample(recs[-1:])
        ctx.judge("JudgeBearoff", recs)
    ctx.run_parallel(model, bind)
