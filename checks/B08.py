"""B08: notation.  MCNotation checks every name of every point exhaustively; the real conversions are tried on every index and name
and seeded nonsense, and printed moves compared, by TLC."""
import re
import vgen
LEVEL = "model_checking"
ASSUMPTIONS = ["negative indices all mean off/home (documented by the code); move notation tolerates 0 and 25 (its comment says so)"]


def name(s):
    ok = re.match(r"^-?[0-9]+$", s) is not None and len(s) < 9
    return dict(s=s, int=ok, val=int(s) if ok else 0)


def run(ctx):
    rng = ctx.rng

    def model():
        ctx.mc("MCNotation", workers=1, min_states=50)

    def bind():
        jobs = ctx.replay
        if not jobs:
            names = [str(i) for i in range(-30, 60)] + ["bar", "off", "your home", "his home", "your bar", "his bar", "home", "Bar", "BAR", "OFF", "your", "", "x", "1x",
                                                        "1.5", "b", "100", "250", "-", "center bar", "center home", "None home", "13a", "a13", "0x5", "your  bar"]
            names += [w + t for w in ("bar", "off", "your home", "his bar", "13", "home", "24") for t in ("ring", "-the-board", " off", " bar 1", "s and more", ".0", " home", "x" * 40)]
            names += [t + w for w in ("bar", "off", "your home", "his bar", "13") for t in ("the ", "x", "off ", "not his ", "a very long way to the ", "+-", "..")]
            jobs = [dict(op="notation", ns=list(range(-8, 60)) + [100, 1000], names=[name(s) for s in names], players=[-1, 0, 1, 2, 3, 4, 11],
                         pms=[dict(die=d, src=s, dest=max(s - d, -1), hit=h) for s in range(25) for d in range(1, 7) for h in (False, True)] +
                             [dict(die=d, src=max(s - d, -1), dest=s, hit=h) for s in range(25) for d in range(1, 7) for h in (False, True)], mvs=[[]])]
            for _ in range(ctx.pick(60, 600)):
                mvs = []
                for _ in range(10):
                    pos, w, r = vgen.position(rng), rng.randint(0, 1), vgen.roll(rng)
                    mvs.append(vgen.play(rng, pos, w, r, rng.randint(0, 4)))
                jobs.append(dict(op="notation", ns=[rng.randint(25, 10 ** 6)], names=[name("".join(rng.choice("0123456789-barofxyu h") for _ in range(rng.randint(0, 6))).strip())],
                                 players=[rng.randint(-5, 12)], pms=[], mvs=mvs))
        recs = []
        for r in ctx.drive("model", jobs, procs=1):
            recs += r["trace"]
        ctx.sample(recs[:1] + recs[-1:])
        ctx.judge("JudgeNotation", recs)
    ctx.run_parallel(model, bind)
