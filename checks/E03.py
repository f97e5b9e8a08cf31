"""E03: XGIDs.  MCXgid shows decoding inverts encoding; real editors decode well-formed ids after other contents, and mutilated ids,
and TLC decides from the fields whether the id is well-formed and what it must decode to."""
import re
import vgen
from checks.E01 import board
LEVEL = "model_checking"
ASSUMPTIONS = ["letters outside -a..oA..O, dice and scores out of range and Crawford flags 2 and 3 (XG's money rules) are not judged"]
WORDS = ["", "x", "1x", "--1", "one", "1.0", "0x1", "A", "-"]


def num(s):
    ok = re.match(r"^-?[0-9]+$", s) is not None
    return dict(int=ok, val=int(s) if ok else 0)


def fields(text):
    fs = text.split(":")
    g = dict(fields=len(fs))
    fs += ["0"] * 10
    g["pos"] = list(fs[0])
    for i, k in enumerate(["cube", "owner", "turn"]):
        g[k] = num(fs[1 + i])
    roll = fs[4]
    g["rolln"] = len(roll)
    g["rollint"] = re.match(r"^[0-9]*$", roll) is not None
    g["dice"] = [int(c) for c in roll] if g["rollint"] and len(roll) == 2 else [0, 0]
    for i, k in enumerate(["your", "his", "flag", "length"]):
        g[k] = num(fs[5 + i])
    return g


def xgid(rng):
    p = vgen.position(rng)     # p[0] lowercase, p[1] uppercase
    s = []
    for i in range(26):
        lo = p[0][24 - i] if i < 25 else 0
        up = p[1][i - 1] if i else 0
        s.append(chr(96 + lo) if lo else chr(64 + up) if up else "-")
    length = rng.choice([0, 0, 1, 3, 5, 7, 25, 64, 100, 999])
    roll = rng.choice([[0, 0], vgen.roll(rng), vgen.roll(rng)])
    return ["".join(s), str(rng.randint(0, 8) if rng.random() < .9 else rng.randint(9, 20)), rng.choice(["0", "1", "-1"]), rng.choice(["1", "-1"]), "%d%d" % tuple(roll),
            *[str(rng.randint(0, 24) if rng.random() < .85 else rng.randint(25, 300)) for _ in range(2)], rng.choice(["0", "0", "1"]), str(length), rng.choice(["10", "0", "6"])]


def spoil(rng, fs):
    fs = list(fs)
    k = rng.randint(0, 9)
    if k == 0:
        return fs[:rng.randint(0, 9)] if rng.random() < .5 else fs + ["0"] * rng.randint(1, 3)
    if k == 1:
        s = fs[0]
        i = rng.randrange(26)
        fs[0] = s[:i] + s[i + 1:] if rng.random() < .5 else s[:i] + rng.choice("-aA") + s[i:]
        if rng.random() < .1: fs[0] = ""
    elif k == 2: fs[1] = rng.choice(WORDS)
    elif k == 3: fs[2] = rng.choice(WORDS + ["2", "-2", "3", "11", "10"])
    elif k == 4: fs[3] = rng.choice(WORDS + ["0", "2", "-2", "11"])
    elif k == 5: fs[4] = rng.choice(["", "1", "123", "x1", "1x", "..", "-1", "D1", "661"])
    elif k == 6: fs[5] = rng.choice(WORDS)
    elif k == 7: fs[6] = rng.choice(WORDS)
    elif k == 8: fs[7] = rng.choice(WORDS + ["-1", "4", "9", "11"])
    elif k == 9: fs[8] = rng.choice(WORDS + ["-1", "-5"])
    if rng.random() < .15:
        return spoil(rng, fs)
    return fs


def run(ctx):
    def model():
        ctx.mc("MCXgid", ctx.pick("MCXgid.cfg", "MCXgidT.cfg"), workers=3, min_states=1000, timeout=850)

    def bind():
        jobs = ctx.replay
        if not jobs:
            jobs = []
            for i in range(ctx.pick(3600, 40000)):
                fs = xgid(ctx.rng)
                if i % 2:
                    fs = spoil(ctx.rng, fs)
                t = ":".join(fs)
                jobs.append(dict(op="xgid", text=t, f=fields(t), prev=[board(ctx.rng)] + ([board(ctx.rng)] if i % 2 == 0 else [])))
        recs = []
        for r in ctx.drive("enc", jobs, procs=4):
            recs += r["trace"]
        ctx.sample(recs[:1])
        ctx.judge("JudgeXgid", recs)
    ctx.run_parallel(model, bind)
