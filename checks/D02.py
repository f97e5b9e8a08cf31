"""D02: the formatter's output is well-formed and stable for any text.  MCWiki shows it for the structural specification; random markup
soups are formatted by the real code in several ways and JudgeWiki decides whether the pages are balanced, made of own elements and the same."""
import wgen
LEVEL = "model_checking"
ASSUMPTIONS = ["macros whose handlers raise (an Analysis of a position the database does not have) are left out", "preformatted text handed to another processor (#!rst) is left out"]


def jobs_(ctx):
    rng = ctx.rng
    out = []
    for i in range(ctx.pick(1800, 5000)):
        t = wgen.soup(rng, rng.choice([2, 4, 8, 15, 30, 60]), False)
        if wgen.processor(t):
            continue
        out.append(dict(op="soup", text=t, gt=True, words=False))
    for i in range(ctx.pick(200, 1500)):        # raw characters
        t = "".join(rng.choice("[]'\"_~^`{}.:*=-+#|!<>/&Xx\n\n   1234abiv,") for _ in range(rng.choice([5, 20, 60, 150])))
        if not wgen.processor(t):
            out.append(dict(op="soup", text=t, gt=True, words=False))
    for i in range(ctx.pick(150, 900)):        # lines with known tokens, and letters beyond ASCII
        t = "".join(wgen.pline(rng)["raw"] + "\n" for _ in range(rng.choice([2, 5, 12])))
        out.append(dict(op="soup", text=t, gt=True, words=False))
        t = wgen.soup(rng, 10, False).replace("q", rng.choice([u"\u00e9", u"\u65e5\u672c", u"\u2028x", "q"]))
        if not wgen.processor(t):
            out.append(dict([("op", "soup"), ("text", t), ("gt", True), ("words", False), ("unicode", True)]))
    return out


def run(ctx):
    def model():
        ctx.mc("MCWiki", ctx.pick("MCWiki2.cfg", "MCWiki2T.cfg"), workers=3, min_states=1000, timeout=850)

    def bind():
        recs = ctx.drive("doc", ctx.replay or jobs_(ctx), procs=4)
        ctx.sample(recs[:1])
        ctx.judge("JudgeWiki", recs)
    ctx.run_parallel(model, bind)
