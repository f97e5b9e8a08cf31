"""I02: the element tree of a board.  PicTree.tla says which element stands for what; MCPicTree explores all histories of a small board (every
chequer once, one cube, the mirrored picture); real trees are set to random histories of boards and judged, as objects and as printed."""
import vgen
LEVEL = "model_checking"
ASSUMPTIONS = ["a side has at most fifteen chequers; the cube owner, the players and the offer are among their constants",
               "whose the action is while a double waits for its answer is not judged (the pinned tree names the player YOU in both cases)"]


def board(rng):
    p = vgen.position(rng)
    if rng.random() < .12:          # many in one place
        mine, at, n = rng.choice([0, 1]), rng.choice([24, 24, rng.randrange(24)]), rng.randint(6, 15)
        if at == 24 or not p[1 - mine][23 - at]:
            side = [0] * 25
            side[at] = n
            for i in range(15 - n):
                j = rng.randrange(25)
                if j == 24 or not p[1 - mine][23 - j]:
                    side[j] += rng.choice([0, 1])
            p = [side, p[1]] if mine == 0 else [p[0], side]
    r = rng.choice([[0, 0], [0, 0], vgen.roll(rng)])
    return dict(pos=[list(p[0]), list(p[1])], cube=rng.choice([0, 0, 1, 2, 6, 10, rng.randint(0, 15)]), owner=rng.choice(["you", "him", "center"]), doubled=rng.random() < .4, on=rng.choice(["you", "him"]),
                inner=rng.choice(["you", "him"]), rolled=list(r), offer=rng.choice([0, 0, 1, 2, 3]), score=[rng.randint(0, 25), rng.randint(0, 25)] if rng.random() < .85 else [rng.randint(0, 200), rng.randint(0, 200)],
                length=rng.choice([0, 1, 5, 7, 25, rng.randint(0, 200)]), crawford=rng.random() < .3, edit=rng.random() < .3, fresh=rng.random() < .1)


def vary(rng, b):
    c, o = dict(b), board(rng)
    for k in rng.sample(["pos", "cube", "owner", "doubled", "on", "inner", "rolled", "offer", "score", "length", "crawford", "edit", "fresh"], rng.choice([1, 1, 2, 3])):
        c[k] = o[k]
    return c


def jobs_(ctx):
    rng = ctx.rng
    out = []
    for i in range(ctx.pick(160, 2500)):
        bs = [board(rng)]
        for _ in range(rng.choice([1, 3, 6, 10] if rng.random() < .97 else [30])):
            bs.append(vary(rng, bs[-1]) if rng.random() < .6 else board(rng))
        bs[0]["fresh"] = rng.random() < .5
        out.append(dict(op="tree", boards=bs))
    # every combination of the state of the play, on one tree
    bs = []
    for on in ("you", "him"):
        for inner in ("you", "him"):
            for doubled in (False, True):
                for offer in (0, 1, 2, 3):
                    for owner in ("you", "him", "center"):
                        for rolled in ([0, 0], [6, 1]):
                            bs.append(dict(board(rng), on=on, inner=inner, doubled=doubled, offer=offer, owner=owner, rolled=rolled, fresh=False))
    rng.shuffle(bs)
    return out + [dict(op="tree", boards=bs[i:i + 16]) for i in range(0, len(bs), 16)]


def run(ctx):
    def model():
        ctx.mc("MCPicTree", ctx.pick("MCPicTree.cfg", "MCPicTreeT.cfg"), workers=3, min_states=1000, timeout=850)

    def bind():
        recs = []
        for r in ctx.drive("image", ctx.replay or jobs_(ctx), procs=3):
            recs += r["trace"]
        ctx.sample(recs[:2])
        ctx.judge("JudgePicTree", recs, split=lambda r: r["hist"] == 0)
    ctx.run_parallel(model, bind)
