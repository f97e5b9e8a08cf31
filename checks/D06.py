"""D06: macros.  Macro.tla specifies the registry and what a call does to the page, Wiki.tla the table of contents; MCMacro explores every short
history of registrations and calls, MCToc every short page of headings.  Random histories and pages run in the real code and are judged."""
import wgen
LEVEL = "model_checking"
ASSUMPTIONS = ["handlers return normally: one that raises passes its exception on, by design of the pinned code", "a handler leaves the elements it enters"]
NAMES = ["Alpha", "beta", "A1", "Gamma_x", "BR", "Position", "TableOfContent"]
ARGS = ["x", "a, b", "1+1=2", "a/b:c#d.e", "0", " ", "None", "vzsAAFhu2xFABA:QYkqASAAIAAA", None, None, "a=1, " * 40 + "end", "x" * 70]
IDS = ["vzsAAFhu2xFABA:QYkqASAAIAAA", "4HPwATDgc/ABMA:cAkAAAAAAAAA", "cNcxAxCY54YBBg:cAn7ADAAIAAA", "4PPgAyCYz+4AIA:cAkAAAA+AA/A"]


def mac(rng, name=None):
    n = name or rng.choice(NAMES + ["Nope", "Zz"])
    a, src, ok = rng.choice(ARGS), "", 0
    if rng.random() < .25:
        a = "".join(rng.choice("abzAZ059+, .=/#:") for _ in range(rng.choice([1, 2, 5, 12])))
    if n == "Position" and rng.random() < .6:
        i = rng.choice(IDS)
        css = rng.choice(["", "", ", css=fancy", ",css=x"])
        a = i + css
    if a and a[:27] in IDS:
        css = a.split("css=")[1] if "css=" in a else "minimal"
        ok, src = 1, "/image?" + "&".join(sorted(["css=" + css, "format=png", "gnubgid=" + a[:27], "height=300", "width=400"]))
    t = wgen.tok("mac", n, ok, "None" if a is None else a)
    t["src"] = src
    return "[[%s]]" % n if a is None else "[[%s(%s)]]" % (n, a), t


def toc(rng):
    return mac(rng, "TableOfContent") if rng.random() < .5 else wgen.texts(rng) and mac(rng, "BR")


def jobs_(ctx):
    rng = ctx.rng
    out = []
    try:
        for i in range(ctx.pick(260, 3500)):
            wgen.EXTRA[:] = [mac]
            ops, made = [], []
            for k in range(rng.choice([1, 3, 6, 12] if rng.random() < .95 else [30])):
                p = rng.random()
                if p < .35:
                    n = rng.choice(NAMES)
                    h = dict(id="h%d" % len(made), name=n, kind=rng.choice(["say", "say", "span", "bad", "none"]), proc=rng.random() < .3)
                    made.append(h)
                    ops.append(dict(op="reg", h=h))
                elif p < .5:
                    h = rng.choice(made)if made and rng.random() < .8 else dict(id="BR", name="BR")
                    ops.append(dict(op="unreg", name=h["name"] if rng.random() < .8 else rng.choice(NAMES + ["Nope"]), id=h["id"]))
                else:
                    ops.append(dict(op="page", lines=[wgen.pline(rng) for _ in range(rng.choice([1, 2, 4, 7]))]))
            ops.append(dict(op="page", lines=[wgen.pline(rng, "text") for _ in range(2)]))
            out.append(dict(op="macros", ops=ops))
        for i in range(ctx.pick(250, 4000)):        # tables of contents
            wgen.EXTRA[:] = [toc]
            ls = []
            for k in range(rng.choice([1, 3, 6, 12] if rng.random() < .95 else [30, 60])):
                p = rng.random()
                if p < .6:
                    name, m = rng.choice(wgen.TOGS[7:])
                    wgen.EXTRA[:] = []
                    r, ts = wgen.run_of(rng, 1, False)
                    wgen.EXTRA[:] = [toc]
                    if rng.random() < .1:
                        r, ts = "", []
                    if rng.random() < .12:      # a heading without any text
                        ls += [dict([("y", "line"), ("raw", m), ("s", "x"), ("def", False), ("proc", False), ("toks", [wgen.tok("tog", name)])]), wgen.pline(rng, "blank")]
                        continue
                    ls.append(dict([("y", "line"), ("raw", m + r + (" " + m)), ("s", "x"), ("def", False), ("proc", False), ("toks", [wgen.tok("tog", name)] + ts + [wgen.tok("t", "", 0, " "), wgen.tok("tog", name)])]))
                else:
                    ls.append(wgen.pline(rng))
            raw, t = mac(rng, "TableOfContent")
            ls.insert(rng.randint(0, len(ls)), dict([("y", "line"), ("raw", raw), ("s", "x"), ("def", False), ("proc", False), ("toks", [t])]))
            out.append(dict(op="macros", ops=[dict(op="page", lines=ls)]))
    finally:
        wgen.EXTRA[:] = []
    return out


def run(ctx):
    def model():
        ctx.mc("MCMacro", ctx.pick("MCMacro.cfg", "MCMacroT.cfg"), workers=ctx.pick(2, 6), min_states=1000, timeout=850)

    def model2():
        ctx.mc("MCToc", ctx.pick("MCToc.cfg", "MCTocT.cfg"), workers=ctx.pick(2, 6), min_states=1000, timeout=850)

    def bind():
        recs = []
        for r in ctx.drive("doc", ctx.replay or jobs_(ctx), procs=4):
            recs += r["trace"]
        ctx.sample(recs[:2])
        ctx.judge("JudgeMacro", recs, split=lambda r: r["op"] == "begin")
    ctx.run_parallel(model, model2, bind)
