"""D01: document tree editing.  MCDoctree explores every bounded editing history; random histories over all element kinds are executed by
the real Editor and the tree seen after every operation is judged by the same operators."""
LEVEL = "model_checking"
ASSUMPTIONS = ["elements are the module's own classes; the plain Node class, which cannot contain anything, is not entered",
               "the table of which element accepts which is part of the specification (taken from the pinned sources)"]
KINDS = ["TableCell", "TableRow", "TableHeader", "Itemize", "DefinitionHeader", "CitationContent", "Span", "BR", "Bold", "Italic", "Underline", "Strike", "Subscript",
         "Superscript", "Monospace", "Anchor", "Img", "H1", "H2", "H3", "DefinitionBody", "Div", "DefinitionList", "Table", "BlockQuote", "Citation", "List", "Macro", "Wrapping", "Base"]
NESTS = ["List", "Itemize", "Div", "Table", "TableRow", "TableCell", "Citation", "CitationContent", "Bold", "Italic", "Monospace", "DefinitionList", "DefinitionBody", "H2"]
CLASSES = KINDS + ["Line", "Box", "Heading", "Root", "Base", "Span", "Box"]


def jobs_(ctx):
    rng = ctx.rng
    out = []
    # each kind inside each other kind: where it lands
    for a in KINDS:
        ops = []
        for b in KINDS:
            ops += [dict(op="enter", k=a), dict(op="enter", k=b), dict(op="leave", ks=[b]), dict(op="text", t="z"), dict(op="done")]
        out += [dict(op="edit", ops=ops[i:i + 40]) for i in range(0, len(ops), 40)]
    for i in range(ctx.pick(420, 6000)):
        use = rng.choice([KINDS, NESTS, rng.sample(NESTS, 4), rng.sample(KINDS, 5)])
        ops = []
        for _ in range(rng.choice([6, 12, 25, 40] if rng.random() < .97 else [120])):
            k = rng.random()
            if k < .42:
                ops.append(dict(op="enter", k=rng.choice(use)))
            elif k < .52:
                ops.append(dict(op="append", k=rng.choice(use)))
            elif k < .68:
                ops.append(dict(op="leave", ks=[rng.choice(use if rng.random() < .7 else CLASSES) for _ in range(rng.choice([1, 1, 1, 2, 3]))]))
            elif k < .84:
                ops.append(dict(op="text", t=rng.choice(["a", "b c", "x" * rng.randint(0, 4), "word"] if rng.random() < .97 else ["long text " * 120])))
            elif k < .87:
                ops.append(dict(op="done"))
            elif k < .92:
                ops.append(dict(op="count", ks=[rng.choice(CLASSES) for _ in range(rng.choice([1, 1, 2, 3]))]))
            elif k < .96:
                ops.append(dict(op="ancestor", ks=[rng.choice(CLASSES) for _ in range(rng.choice([1, 1, 2]))]))
            elif k < .98:
                ops.append(dict(op="accept"))
            else:
                ops.append(dict(op="remove", i=rng.randint(0, 9)))
        out.append(dict(op="edit", ops=ops))
    for i in range(ctx.pick(12, 150)):          # deep documents
        use = rng.choice([["Div"], ["Span"], ["List", "Itemize"], ["Citation", "CitationContent"], ["Bold", "Italic"], ["Div", "Table", "TableRow", "TableCell", "Span"]])
        n = rng.randint(10, ctx.pick(24, 60))
        ops = [dict(op="enter", k=use[j % len(use)] if rng.random() < .9 else rng.choice(NESTS)) for j in range(n)]
        for k in use + ["Root"]:
            ops += [dict(op="count", ks=[k]), dict(op="ancestor", ks=[k])]
        ops += [dict(op="text", t="t"), dict(op="leave", ks=["Root"] if rng.random() < .3 else [rng.choice(use)]), dict(op="text", t="u")]
        ops.insert(0, dict(op="enter", k="Div"))
        ops += [dict(op="leave", ks=[rng.choice(["H1", "DefinitionHeader", "Div"])]), dict(op="text", t="v"), dict(op="accept")]
        out.append(dict(op="edit", ops=ops))
    for i in range(ctx.pick(14, 120)):          # leaving an element far above the current one
        outer, use = rng.choice([(["Div"], ["Span"]), (["Div"], ["Bold", "Italic"]), (["Div", "H1"], ["Span", "Monospace"]), (["List", "Itemize"], ["Span"]),
                                 (["Table", "TableRow", "TableCell"], ["Span", "Underline"]), (["Citation", "CitationContent"], ["Strike"]), (["BlockQuote"], ["Span"])])
        n = rng.randint(3, ctx.pick(26, 60))
        ops = [dict(op="enter", k="Div")] * rng.randint(0, 2) + [dict(op="enter", k=k) for k in outer]
        ops += [dict(op="enter", k=use[j % len(use)]) for j in range(n)] + [dict(op="text", t="deep")]
        ops += [dict(op="leave", ks=rng.choice([[k] for k in outer] + [[rng.choice(outer), "DefinitionHeader"]])), dict(op="text", t="out"), dict(op="enter", k=rng.choice(use + outer)), dict(op="text", t="in"), dict(op="done")]
        out.append(dict(op="edit", ops=ops))
    return out


def run(ctx):
    def model():
        ctx.mc("MCDoctree", ctx.pick("MCDoctree.cfg", "MCDoctreeT.cfg"), workers=3, min_states=1000, timeout=850)

    def bind():
        recs = []
        for r in ctx.drive("doc", ctx.replay or jobs_(ctx), procs=3):
            recs += r["trace"]
        ctx.sample(recs[3:5])
        ctx.judge("JudgeDoctree", recs, split=lambda r: r["op"] == "begin")
    ctx.run_parallel(model, bind)
