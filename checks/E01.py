"""E01: FIBS board lines.  MCFibs shows Decode inverts what a server sends for either colour and direction; real editors holding
other boards decode random lines and TLC compares every field with Fibs!Decode."""
import vgen
LEVEL = "model_checking"
ASSUMPTIONS = ["unlimited matches (length 9999) are not generated", "the fields FIBS itself calls obsolete or unused do not matter"]
NAMES = ["You", "someplayer", "foo_bar", "X", "MonteCarlo"]


def board(rng, **kw):
    """arbitrary contents of an editor"""
    b = dict(position=vgen.position(rng), cube_in_logarithm=rng.randint(0, 6), cube_owner=rng.choice([0, 1, 3]), on_action=rng.randint(0, 1),
             crawford=rng.random() < .5, game_state=rng.randint(0, 4), on_inner_action=rng.randint(0, 1), doubled=rng.random() < .5,
             resign_offer=rng.randint(0, 3), rolled=rng.choice([[0, 0], vgen.roll(rng)]), match_length=rng.choice([0, 1, 5, 25]),
             score=[rng.randint(0, 9), rng.randint(0, 9)])
    b.update(kw)
    return b


def line(rng):
    p = vgen.position(rng)
    colour, d = rng.choice([1, -1]), rng.choice([1, -1])
    pts = [0] * 26
    for k in range(1, 26):
        if p[0][k - 1]: pts[k if d < 0 else 25 - k] = colour * p[0][k - 1]
        if p[1][k - 1]: pts[25 - k if d < 0 else k] = -colour * p[1][k - 1]
    turn = rng.choice([colour, -colour, colour, -colour, 0])
    roll = rng.choice([[0, 0], vgen.roll(rng), vgen.roll(rng)])
    other = rng.choice([[0, 0], [0, 0], vgen.roll(rng)])
    my, his = (roll, other) if turn == colour else (other, roll)
    f = dict(pts=pts, colour=colour, dir=d, turn=turn, mydice=my, hisdice=his, cube=2 ** rng.choice([0, 0, 1, 2, 3, 6, rng.randint(0, 15)]),
             mydbl=rng.randint(0, 1), hisdbl=rng.randint(0, 1), doubled=1 if rng.random() < .3 else 0, length=rng.choice([1, 3, 5, 7, 11, 25, 0, 64, 9999, rng.randint(0, 300)]),
             score=[rng.randint(0, 24), rng.randint(0, 24)] if rng.random() < .8 else [rng.randint(0, 400), rng.randint(0, 400)])
    home, bar = (0, 25) if d < 0 else (25, 0)
    n = [15 - sum(p[0]), 15 - sum(p[1]), p[0][24], p[1][24]]
    text = ":".join(str(x) for x in ["board", rng.choice(NAMES), rng.choice(NAMES), f["length"]] + f["score"] + pts + [turn] + my + his +
                    [f["cube"], f["mydbl"], f["hisdbl"], f["doubled"], colour, d, home, bar] + n +
                    [rng.randint(0, 4), rng.randint(0, 1), rng.randint(0, 1), rng.choice([0, 0, 1, 3])])
    return dict(op="fibs", f=f, text=text, prev=[board(rng), board(rng)])


def run(ctx):
    def model():
        ctx.mc("MCFibs", ctx.pick("MCFibs.cfg", "MCFibsT.cfg"), workers=3, min_states=1000, timeout=850)

    def bind():
        jobs = ctx.replay or [line(ctx.rng) for _ in range(ctx.pick(3000, 40000))]
        recs = []
        for r in ctx.drive("enc", jobs, procs=4):
            recs += r["trace"]
        ctx.sample(recs[:1])
        ctx.judge("JudgeFibs", recs)
    ctx.run_parallel(model, bind)
