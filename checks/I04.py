"""I04: the picture device.  Device.tla says what each drawing call does to the canvas; MCDevice shows that a device that keeps loaded pictures and
fonts does the same as one that loads anew, and that every text lies in the middle of its box in the largest size that fits.  The real device runs on a
stand-in for the imaging library that records what reaches the canvas: random histories of calls and whole boards under random sheets are judged."""
from checks.I03 import sheet, sizes, playable
from checks.I02 import board, vary
LEVEL = "model_checking"
ASSUMPTIONS = ["the imaging library is a recording stand-in (PIL is not installed): truetype fonts whose text size grows with the font size", "coordinates are whole numbers, as the elements give them"]
WORDS = ["1", "64", "8", "crawford", "x", "5 point match", "*", "13", "Mg", ""]


def call(rng, uris):
    c = rng.choice(["text", "text", "text", "image", "image", "image", "rect", "ellipse", "polygon"])
    n = lambda lo, hi: rng.randint(lo, hi)
    t = rng.choice(WORDS) if c == "text" else rng.choice(uris) if c == "image" else ""
    w, h = (rng.choice([4, 5, 9, 30]), rng.choice([4, 9, 12, 30])) if c == "image" else (n(0, 90), n(0, 45) if rng.random() < .7 else n(6, 10))
    if rng.random() < .04:
        w, h = n(50, 400), n(20, 150)
    return dict(c=c, x=n(-5, 200), y=n(-5, 200), w=w, h=h, t=t, f=rng.choice(["f.ttf", "g.ttf"]) if c == "text" else "",
                k="" if c == "image" else rng.choice(["red", "#00ff00", "white"] + ([""] if c != "text" else [])), flip=c == "image" and rng.random() < .5,
                pts=[[n(0, 99), n(0, 99)] for _ in range(3)] if c == "polygon" else [], list=rng.random() < .3)


def jobs_(ctx):
    rng = ctx.rng
    out = []
    for i in range(ctx.pick(260, 3000)):
        mt = dict(a=rng.choice([1, 1, 2, 3, 5]), b=rng.choice([1, 2, 3, 4]), p=rng.choice([1, 1, 3, 5]), q=rng.choice([1, 1, 2, 4]))
        uris = ["a.png", "b.png", "c.png"]
        rgba = [u for u in uris if rng.random() < .5]
        draws = [dict(bound=[rng.randint(1, 300), rng.randint(1, 300)], calls=[call(rng, uris) for _ in range(rng.choice([1, 3, 8, 20] if rng.random() < .97 else [60]))]) for _ in range(rng.choice([1, 2, 3]))]
        out.append(dict(op="device", mt=mt, rgba=rgba, lines=[], draws=draws))
    for i in range(ctx.pick(40, 700)):
        W, H, lines = sheet(rng)
        mt = dict(a=rng.choice([1, 1, 2]), b=rng.choice([1, 2, 3]), p=1, q=rng.choice([1, 2]))
        b, ds = board(rng), []
        for _ in range(rng.choice([1, 2, 3])):
            ds.append(dict(sizes(rng, ctx, W, H), board=playable(rng, b)))
            b = vary(rng, b)
        out.append(dict(op="device", mt=mt, rgba=[u for u in ("a.png", "b.png", "c.png", "q.png") if rng.random() < .5], lines=lines, draws=ds))
    return out


def run(ctx):
    def model():
        ctx.mc("MCDevice", ctx.pick("MCDevice.cfg", "MCDeviceT.cfg"), workers=2, min_states=1000, timeout=850)

    def bind():
        recs = []
        for r in ctx.drive("image", ctx.replay or jobs_(ctx), procs=4):
            recs += r["trace"]
        ctx.sample([dict(r, calls=r["calls"][:3], ops=r["ops"][:3]) for r in recs[:2]])
        ctx.judge("JudgeDevice", recs, split=lambda r: r["hist"] == 0)
    ctx.run_parallel(model, bind)
