"""I03: drawing.  Draw.tla says what each styled element puts on the page and where; MCDraw draws every tree of a small family on several pages;
real boards are drawn under the shipped style sheets and under random ones, the calls recorded and judged."""
from checks.I02 import board, vary
LEVEL = "model_checking"
ASSUMPTIONS = ["the sheet gives the elements that are drawn the attributes they need", "the tree itself and its attributes are the business of I01 and I02: the judge starts from them",
               "exact positions are compared when the factor is a binary fraction, else those of backgrounds up to one dot"]
SHEETS = dict(deutsche=0, flower=0, kotobuki=0, matrix=0, minimal=0, nature=0, neon=0, safari=0)
PIECES = ["action", "length", "crawford", "score", "cubeholder", "field", "home", "bar", "point", "top_frame", "bottom_frame"]


def sheet(rng):
    W, H = rng.choice([(64, 32), (64, 64), (128, 32), (256, 64)])
    n = lambda lo, hi: str(rng.randint(lo, hi))
    font = rng.random() < .7
    out = ["board {x: 0; y: 0; width: %d; height: %d%s%s}" % (W, H, rng.choice(["", "; background: green"]), '; font: uri("f.ttf")' if font else "")]

    def geo(xy=.8):
        r = []
        if rng.random() < xy: r += ["x: " + n(0, W), "y: " + n(0, H)]
        if rng.random() < .8: r += ["width: " + n(0, W // 2), "height: " + n(0, H // 2)]
        return r

    def rule(sel, parts):
        parts = list(parts)
        rng.shuffle(parts)
        if parts:
            out.append("%s {%s}" % (sel, "; ".join(parts)))

    def look(must=False):
        r = []
        p = rng.random()
        if must or p < .5: r.append("color: " + rng.choice(["red", "white", "#00ff00", "black"]))
        if p < .25 or p > .9: r.append('image: uri("%s.png")' % rng.choice("abc"))
        if rng.random() < .25: r.append("background: " + rng.choice(["blue", "grey"]))
        return r
    if rng.random() < .3: rule("match", geo())
    if rng.random() < .3: rule("position", geo() + (["flip: True"] if rng.random() < .5 else []))
    for k in PIECES:
        if rng.random() < .8:
            extra = []
            if k == "field" and rng.random() < .5: extra.append("text: waiting")
            if k in ("point", "home") and rng.random() < .4: extra.append("fill: " + rng.choice(["True", "False"]))
            if rng.random() < .2: extra.append("flip: " + rng.choice(["True", "False"]))
            rule(k, geo() + look() + extra)
    # a text is drawn in a colour
    for k in ("action", "length", "crawford", "score"):
        if rng.random() < .8: rule(k, ["color: red"])
    for i in range(1, 25):
        if rng.random() < .5:
            rule("point:data(%d)" % i, geo() + look() + (["flip: True"] if rng.random() < .3 else []))
    for p in ("odd", "even"):
        if rng.random() < .4: rule("point[parity=%s]" % p, look(True))
    for k in ("score", "bar", "home", "field", "action", "resign"):
        for p in ("you", "him"):
            if rng.random() < .3 and k != "resign": rule("%s[player=%s]" % (k, p), geo() + (look() if k not in ("score", "action") else []))
    offs = ["x_offset: " + n(-6, 8), "y_offset: " + n(-6, 8)]
    rule("chequer", ["max_count: " + n(1, 15), "width: " + n(1, 12), "height: " + n(1, 12)] + offs + ["x_offset2: " + n(-9, 9), "y_offset2: " + n(-9, 9)]
         + (["hide_count: " + rng.choice(["True", "False"])] if rng.random() < .5 else []) + (look(True) if rng.random() < .8 else ['image: uri("c.png")']))
    for p in ("you", "him"):
        if rng.random() < .6: rule("chequer[player=%s]" % p, look() + (["max_count: " + n(0, 6)] if rng.random() < .3 else []))
    if rng.random() < .4: rule("bar chequer", ["max_count: " + n(1, 4), "y_offset: " + n(-4, 4)])
    if rng.random() < .4: rule("home chequer", ["max_count: " + n(1, 4), "width: " + n(1, 9)])
    style = rng.choice(["dot", "dot", "numeric"]) if font else "dot"
    rule("die", ["eyesize: " + n(0, 6), "diestyle: " + style] + geo() + look(True))
    if rng.random() < .4: rule("field[player=you] die", look() + geo())
    if rng.random() < .4: rule("die[id=right]", ["x: " + n(0, W), "width: " + n(1, 20)])
    im = [] if font else ['image: uri("q.png")']
    rule("cube", geo() + look(True) + im + (["initialCube: " + rng.choice(["64", "X"])] if rng.random() < .5 else []))
    rule("resign", geo() + look(True) + im + offs)
    return W, H, out


def sizes(rng, ctx, W, H):
    """picture sizes: exact when the greatest factor is a binary fraction"""
    if rng.random() < .25:
        b, exact = [rng.randint(1, 900), rng.randint(1, 900)], False
    else:
        j = rng.randint(1, 90)
        low = lambda n: n & -n
        if rng.random() < .5:       # the height decides: by/H = j/low(H)
            b = [0, j * (H // low(H))]
            b[0] = -(-b[1] * W // H) + rng.choice([0, 0, 1, 50, 999])
        else:
            b = [j * (W // low(W)), 0]
            b[1] = -(-b[0] * H // W) + rng.choice([0, 0, 1, 50, 999])
        exact = True
    return dict(bound=b, exact=exact)


def size_of(sheet):
    import re
    import vlib
    w = h = 0
    for line in open(vlib.REPO + "/bglib/image/resource/%s/default.css" % sheet):
        m = re.match(r"board *\{.*width: *(\d+) *;.*height: *(\d+)", line)
        if m:
            w, h = int(m.group(1)), int(m.group(2))
    return w, h


def playable(rng, b):
    """boards that can be pictured"""
    if b["rolled"] == [0, 0] and not b["doubled"] and b["inner"] != b["on"] and not b["offer"]:
        b["offer"] = rng.randint(1, 3)
    return dict(b, cube=min(b["cube"], 6))


def draws(rng, ctx, W, H, n):
    bs = [board(rng)]
    while len(bs) < n:
        bs.append(vary(rng, bs[-1]) if rng.random() < .5 else board(rng))
    return [dict(sizes(rng, ctx, W, H), board=playable(rng, b)) for b in bs]


def jobs_(ctx):
    rng = ctx.rng
    out = []
    for name in sorted(SHEETS):
        W, H = size_of(name)
        for i in range(ctx.pick(1, 20)):
            out.append(dict(op="draw", sheet=name, lines=[], spoil=rng.random() < .5, draws=draws(rng, ctx, W, H, 4)))
    for i in range(ctx.pick(55, 1200)):
        W, H, lines = sheet(rng)
        out.append(dict(op="draw", sheet="", lines=lines, spoil=rng.random() < .5, draws=draws(rng, ctx, W, H, rng.choice([2, 4, 6]))))
    return out


def run(ctx):
    def model():
        ctx.mc("MCDraw", ctx.pick("MCDraw.cfg", "MCDrawT.cfg"), workers=2, min_states=1000, timeout=850)

    def bind():
        recs = []
        for r in ctx.drive("image", ctx.replay or jobs_(ctx), procs=4):
            recs += r["trace"]
        ctx.sample([dict(r, es=r["es"][:3], calls=r["calls"][:6]) for r in recs[:2]])
        ctx.judge("JudgeDraw", recs, split=lambda r: r["hist"] == 0)
    ctx.run_parallel(model, bind)
