"""D07: analysis tables.  Report.tla specifies the tables of an analysis; MCReport explores every short report and shows that its tables are
rectangles that hold every row where it belongs and tell different rows apart.  Random pages of analyses, through a stand-in database, are
formatted by the real wiki and the tables read back from the HTML are judged by TLC."""
LEVEL = "model_checking"
ASSUMPTIONS = ["the database returns rows of the documented shape, numbered from one", "numbers are not halfway between two roundings", "spaces inside a cell count as one"]
ALPHA = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
NONE = -999999


def ident(rng):
    return "%s:%s" % ("".join(rng.choice(ALPHA) for _ in range(14)), "".join(rng.choice(ALPHA) for _ in range(12)))


def equity(rng):
    return rng.choice([0, 1, -1, 9, -9, 10, 99, -99, 100, 999, -999, 1000, -1000, 1001, 2999, -3000, rng.randint(-1500, 1500), rng.randint(-1500, 1500), rng.randint(-3000, 3000)])


def chances(rng):
    return [rng.choice([0, 1, 5, 9, 10, 99, 100, 999, 1000, rng.randint(0, 1000), rng.randint(0, 1000)]) for _ in range(6)]


def move(rng):
    out = []
    for _ in range(rng.choice([0, 1, 2, 2, 3, 4])):
        out.append(rng.choice(["bar", str(rng.randint(1, 24))]) + "/" + rng.choice(["off", str(rng.randint(1, 24))]) + rng.choice(["", "", "*"]) + rng.choice(["", "", "(2)", "(4)"]))
    return " ".join(out)


def analysis(rng):
    cube = rng.random() < .45
    n = rng.choice([0, 1, 2, 3, 3, 4, 5, 12, 25]) if not cube else rng.choice([0, 1, 3, 3, 3, 4])
    act = rng.choice([0, 0, 1, 2, n, rng.randint(0, n)])

    def noise(*ks):
        return [0 if k == 0 else rng.choice([0, 0, 4, -4, 2]) for k in ks]
    rows = []
    for i in range(1, n + 1):
        e, d = equity(rng), rng.choice([NONE, 0, equity(rng), equity(rng), -abs(equity(rng))])
        w = chances(rng)
        x = dict(nth=i, eq=e, diff=d, actual=i == act or rng.random() < .05, said=rng.random() < .5, n=noise(e, 0, 0, d, *[k or 1 for k in w]))
        x["n"][4:] = [abs(m) for m in x["n"][4:]]
        if cube:
            x.update(action=rng.randrange(4), w=[])
            x["n"] = x["n"][:4]
        else:
            x.update(move=move(rng), ply=rng.choice([0, 1, 2, 2, 3, 7, 10]), w=w)
        rows.append(x)
    c, m = equity(rng), equity(rng)
    first = dict(ply=rng.choice([0, 2, 3, 10]), cubeless=c, money=m, w=chances(rng), n=noise(0, c, m, 0) + [rng.choice([0, 0, 3]) for _ in range(6)])
    return dict(cube=cube, first=first, rows=rows)


def jobs_(ctx):
    rng = ctx.rng
    jobs = []
    for _ in range(ctx.pick(450, 6000)):
        page, words, items, ids = [], [], [], []
        seen = {}
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            def word():
                w = "q%sz" % "".join(rng.choice("abcdefgh") for _ in range(4))
                words.append(w)
                return w
            line = ""
            if rng.random() < .4: line += word() + " "
            if ids and rng.random() < .4:       # the same again, or only the position or the match the same
                k, p = rng.choice(ids), rng.random()
                if p < .4: k = k[:15] + ident(rng)[15:]
                elif p < .7: k = ident(rng)[:15] + k[15:]
            else:
                k = ident(rng)
            if k not in seen:
                seen[k] = analysis(rng)
            items.append(seen[k])
            ids.append(k)
            line += "[[Analysis(%s%s)]]" % (k, rng.choice(["", "", ", css=fancy"]))
            if rng.random() < .4: line += " " + word()
            page.append(line)
            if rng.random() < .3: page.append("")
        jobs.append(dict([("op", "report"), ("page", page), ("words", words), ("ids", ids), ("as", items)]))
    return jobs


def run(ctx):
    def model():
        ctx.mc("MCReport", ctx.pick("MCReport.cfg", "MCReportT.cfg"), workers=2, min_states=1000, timeout=850)

    def bind():
        recs = ctx.drive("doc", ctx.replay or jobs_(ctx), procs=4)
        ctx.sample(recs[:1])
        ctx.judge("JudgeReport", recs)
    ctx.run_parallel(model, bind)
