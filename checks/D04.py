"""D04: block structure.  Wiki.tla says what each line does to the document; MCWiki shows for every short page that blocks nest as the markup
dictates; pages with known tokens are formatted by the real code and the tags and texts compared with those of the specification."""
import itertools
import wgen
LEVEL = "model_checking"
ASSUMPTIONS = ["tokens are separated as an author would write them (no overlapping markup)", "a plain line directly after table rows or a definition continues in that table or list, as the pinned code does"]


def basics(rng):
    ls = [wgen.pline(rng, s) for s in ("blank", "pre", "post", "text", "one", "def", "row", "cellrow", "head")]
    for d in (1, 2, 3):
        k, m, sign = rng.choice(wgen.LISTS)
        ls.append(dict([("y", "line"), ("raw", " " * d + m + " x"), ("s", " "), ("def", False), ("proc", False), ("toks", [wgen.tok("item", k, d, sign), wgen.tok("t", "", 0, "x")])]))
        ls.append(dict([("y", "line"), ("raw", ">" * d + " y"), ("s", ">"), ("def", False), ("proc", False), ("toks", [wgen.tok("cite", "", d), wgen.tok("t", "", 0, "y")])]))
    ls.append(dict([("y", "line"), ("raw", "  zz"), ("s", " "), ("def", False), ("proc", False), ("toks", [wgen.tok("quote", "", 2), wgen.tok("t", "", 0, "zz")])]))
    return ls


def jobs_(ctx):
    rng = ctx.rng
    out = []
    for n in (1, 2):
        ls = basics(rng)
        for seq in itertools.product(ls, repeat=n):
            out.append(dict(op="page", lines=list(seq)))
    ls = basics(rng)
    triples = list(itertools.product(ls, repeat=3))
    for seq in (triples if ctx.thorough else rng.sample(triples, 900)):
        out.append(dict(op="page", lines=list(seq)))
    for k, m, sign in wgen.LISTS:           # every marker, alone and inside every other
        for k2, m2, sign2 in wgen.LISTS:
            mk = lambda d, k, m, s: dict([("y", "line"), ("raw", " " * d + m + " w"), ("s", " "), ("def", False), ("proc", False), ("toks", [wgen.tok("item", k, d, s), wgen.tok("t", "", 0, "w")])])
            out.append(dict(op="page", lines=[mk(1, k, m, sign), mk(rng.choice([1, 2]), k2, m2, sign2), mk(1, k, m, sign)]))
    for i in range(ctx.pick(1500, 8000)):
        n = rng.choice([1, 2, 3, 4, 6, 10, 15] if rng.random() < .95 else [30, 45])
        styles = rng.choice([None, None, ["item"], ["item", "row", "text"], ["cite", "text", "blank"], ["def", "quote", "item"], ["pre", "post", "text", "blank", "proc"], ["item", "pre", "post", "one"], ["row", "cellrow", "text"]])
        lines = [wgen.pline(rng, styles and rng.choice(styles)) for _ in range(n)]
        if i % 12 == 7:
            lines += wgen.preblock(rng) + [wgen.pline(rng)]
        out.append(dict(op="page", lines=lines))
    return out


def run(ctx):
    def model():
        ctx.mc("MCWiki", ctx.pick("MCWiki.cfg", "MCWikiT.cfg"), workers=3, min_states=1000, timeout=850)

    def bind():
        recs = ctx.drive("doc", ctx.replay or jobs_(ctx), procs=4)
        ctx.sample(recs[:1])
        ctx.judge("JudgeWiki", recs)
    ctx.run_parallel(model, bind)
