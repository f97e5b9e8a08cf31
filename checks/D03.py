"""D03: user text is escaped once and survives.  MCWiki shows that the specification keeps every word once and in order; in the real code
every word and markup character of random texts is followed into the page."""
import wgen
LEVEL = "model_checking"
ASSUMPTIONS = ["words are told apart by a pattern (q....z), so losing or moving one is visible; '>' at the start of a line is citation markup and not followed there",
               "a table of contents repeats heading words and is left out"]
CONTEXTS = ["%s", " * %s", "  + %s", "   1. %s\n * %s", "> %s", ">> %s\n> %s", "  %s", "= %s =", "== %s ==", "=== %s\n===", "%s::\n  %s", "||%s||%s||\n||%s||", "||%s", "{{{\n%s\n}}}", "{{{\n %s\n\n%s\n}}}\n%s", "{{{\n#!/%s\n%s\n}}}", "{{{\n#!x %s\n#!\n%s\n}}}", "{{{\n#! %s\n}}}", "{{{\n%s\n #!x\n%s\n}}}",
            "'''%s''' ''%s''", "'''''%s'''''", "{{{%s}}}", "`%s`", "__%s__ ~~%s~~ ,,%s,, ^%s^", "[http://h/x %s]", "![http://h/x %s]", "http://h/?a=1&b=2 %s", "!http://h/?a=1&b=%s", "[[Nope(a)]] %s", "CamelWord %s", "!CamelWord %s",
            " * %s\n{{{\n%s\n}}}\n * %s", "||%s||\n{{{\n%s\n}}}\n", "  %s\n {{{\n%s\n}}}\n"]


def chunk(rng, gt):
    return " ".join(rng.choice([wgen.word(rng), wgen.word(rng), "<b>" if gt else "<b", "&", "&amp;", "<", "a&b", "x<y", "]]" if gt else "x", '"', "'", "</p" + (">" if gt else ""), "&lt;", "?"]) for _ in range(rng.choice([1, 2, 4, 7] if rng.random() < .95 else [40, 100, 250])))


def jobs_(ctx):
    rng = ctx.rng
    out = []
    add = lambda t, gt: wgen.processor(t) or out.append(dict(op="soup", text=t, gt=gt, words=True))
    for rep in range(ctx.pick(8, 100)):
        for c in CONTEXTS:
            cite = c.startswith(">")
            parts = tuple(chunk(rng, not cite).replace("]", "x") for _ in range(c.count("%s")))
            if "?a=1" in c:
                parts = tuple(wgen.word(rng) + " " + p for p in parts)
            add(c % parts, not cite)
    for i in range(ctx.pick(1500, 8000)):
        cite = rng.random() < .5
        add(wgen.soup(rng, rng.choice([2, 4, 8, 15, 30, 60] if rng.random() < .97 else [200, 400]), True, cite), not cite)
    for i in range(ctx.pick(500, 4000)):
        styles = rng.choice([None, ["text", "item", "row"], ["pre", "post", "text", "one", "quote", "blank"], ["text"], ["text", "def", "cite", "head"]])
        lines = [wgen.pline(rng, styles and rng.choice(styles)) for _ in range(rng.choice([1, 2, 4, 8]))]
        if i % 4 == 3:
            lines += wgen.preblock(rng) + ([wgen.pline(rng) for _ in range(2)] if i % 8 == 3 else [])
        out.append(dict(op="said", lines=lines))
    return out


def run(ctx):
    def model():
        ctx.mc("MCWiki", ctx.pick("MCWiki3.cfg", "MCWiki3T.cfg"), workers=3, min_states=1000, timeout=850)

    def bind():
        recs = ctx.drive("doc", ctx.replay or jobs_(ctx), procs=4)
        ctx.sample(recs[:1])
        ctx.judge("JudgeWiki", recs)
    ctx.run_parallel(model, bind)
