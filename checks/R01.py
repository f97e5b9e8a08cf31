"""R01: Snowie match files.  MCSnowie shows that the line-by-line reader of the specification accepts exactly the declared
language; generated records, mutations of them and the sample records of the repository are fed to the real validator and splitter."""
import glob, os, re
LEVEL = "model_checking"
ASSUMPTIONS = ["the missing dependency tonic.lineparser is replaced by a stand-in (harness/stubs/tonic/lineparser.py): a line goes to the handler of the first alternative that matches, an alternative without handler is ignored",
               "not judged: records starting with a blank line, result lines that do not follow a move, a total equal to the size limit"]


def act(rng):
    k = rng.random()
    if k < .1:
        return "Doubles => %d" % rng.choice([2, 4, 8])
    if k < .2:
        return rng.choice([" Takes", " Drops"])
    n = rng.choice([0, 1, 2, 2, 2, 3, 4])
    return "%d%d:" % (rng.randint(1, 6), rng.randint(1, 6)) + "".join(" %d/%d%s" % (rng.randint(1, 25), rng.randint(0, 24), rng.choice(["", "", "*"])) for _ in range(n))


def line(rng, kind, n=0, g=1):
    if kind == "length":
        t = " %d point match" % rng.choice([1, 3, 5, 7, 11, 25, 100])
    elif kind == "game":
        t = rng.choice([" Game %d", " Game %d", "Game %d", "   Game %d"]) % g
    elif kind == "player":
        a, b = [rng.choice(["nori", "gnubg", "Mr X", "x_1", "A.B"]) + rng.choice(["", ",%d" % rng.randint(0, 9999)]) for _ in "ab"]
        t = " " + ("%s : %d" % (a, rng.randint(0, 20))).ljust(36) + "%s : %d" % (b, rng.randint(0, 20))
    elif kind == "move":
        t = rng.choice(["%3d) ", "%3d) ", "%d) ", "  %d)  "]) % n + rng.choice([act(rng).ljust(31) + act(rng), act(rng), " " * 31 + act(rng), act(rng).ljust(31) + "Wins 2 points"])
    elif kind == "result":
        t = rng.choice(["      Wins 1 point", "Wins 4 points", " " * 37 + "Wins 2 points and the match"])
    elif kind == "blank":
        t = rng.choice(["", "", " ", "\t", "    "])
    else:
        t = rng.choice(["hogehoge", "Match", "5 points", " point match", "Game", "Games 3", "1: 31: 8/5 6/5", " nori 0 bgnori 0", "#", "x) 31: 8/5", ") 31: 8/5", "-1) 31: 8/5", " nori : 3"])
    t += rng.choice(["\n", "\n", "\n", "\r\n"]) if rng.random() < .1 else "\n"
    return dict(k=kind, n=n if kind == "move" else 0, t=t, size=len(t))


def record(rng, long=False):
    ls = [line(rng, "length")] + [line(rng, "blank") for _ in range(rng.choice([0, 1, 1, 2]))]
    for g in range(1, (rng.choice([1, 2, 2, 3, 4]) if rng.random() < .95 else rng.choice([9, 11, 25])) + 1):
        ls += [line(rng, "game", g=g), line(rng, "player")]
        top = rng.choice([1, 2, 3, 4, 7, 9, 10, 11, 12, 30]) if rng.random() < .4 else rng.randint(1, 6)
        ls += [line(rng, "move", n) for n in range(1, top + 1)]
        if long and g == 1:
            ls += [line(rng, "move", n) for n in range(top + 1, rng.choice([99, 100, 101, 105, 130]) + 1)]
        ls += [line(rng, "result") for _ in range(rng.choice([0, 0, 1]))]
        ls += [line(rng, "blank") for _ in range(rng.choice([0, 1, 1, 2]))]
    return ls


def mutate(rng, ls):
    ls = list(ls)
    for _ in range(rng.choice([1, 1, 1, 2])):
        k, i = rng.random(), rng.randrange(len(ls))
        if k < .2:
            del ls[i]
        elif k < .35:
            ls.insert(i, ls[i])
        elif k < .5:
            j = rng.randrange(len(ls)); ls[i], ls[j] = ls[j], ls[i]
        elif k < .6 and i + 1 < len(ls):
            ls[i], ls[i + 1] = ls[i + 1], ls[i]
        elif k < .85:
            kind = rng.choice(["length", "game", "player", "move", "move", "result", "blank", "bad", "bad"])
            ls.insert(i, line(rng, kind, rng.choice([0, 1, 2, 3, 10, (ls[i]["n"] or 1) + rng.choice([-1, 1, 10])])))
        else:
            ms = [j for j, x in enumerate(ls) if x["k"] == "move"]
            if ms:
                j = rng.choice(ms)
                n = ls[j]["n"]
                ls[j] = line(rng, "move", rng.choice([n + 1, max(n - 1, 0), n * 10, n + 10, 1]))
        if not ls:
            return [line(rng, "length")]
    return ls


def classify(t):
    s = t.strip()
    for kind, pat in (("blank", r"\s*$"), ("length", r" \d+ point match"), ("game", r" *Game \d+"), ("player", r" [^,:]+(,\d+)? : \d+ *[^,:]+(,\d+)? : \d+"),
                      ("move", r" *(\d+)\) "), ("result", r" *Wins \d+ point")):
        m = re.match(pat, t)
        if m:
            return dict(k=kind, n=int(m.group(1)) if kind == "move" else 0, t=t, size=len(t))
    return dict(k="bad", n=0, t=t, size=len(t))


def jobs_(ctx):
    rng = ctx.rng
    out = []
    kinds = ["length", "game", "player", "move", "blank", "bad", "result"]
    # every short sequence of kinds
    def seqs(n):
        return [[]] if n == 0 else [s + [(k, m)] for s in seqs(n - 1) for k in kinds for m in ((1, 2) if k == "move" else (0,))]
    for s in seqs(3) if not ctx.thorough else seqs(4):
        ls = [line(rng, k, m) for k, m in s]
        out.append(dict(op="validate", how=rng.choice(["feed", "validate"]), max=0, lines=ls))
    # every pair of kinds after each kind of well-formed beginning
    pre = dict(length=[("length", 0)], game=[("length", 0), ("game", 0)], player=[("length", 0), ("game", 0), ("player", 0)])
    pre["move"] = pre["player"] + [("move", 1), ("move", 2)]
    pre["ended"] = pre["move"] + [("result", 0)]
    pre["blank"] = pre["move"] + [("blank", 0)]
    pre["second"] = pre["blank"] + [("game", 0), ("player", 0)]
    pre["ninth"] = pre["player"] + [("move", i) for i in range(1, 10)]
    nums = (0, 1, 2, 3, 4, 10, 11)
    nxt = [(k, m) for k in kinds for m in (nums if k == "move" else (0,))]
    for p in sorted(pre):
        for a in nxt:
            for b in nxt if ctx.thorough else [rng.choice(nxt) for _ in range(3)]:
                ls = [line(rng, k, m) for k, m in pre[p] + [a, b]]
                out.append(dict(op=rng.choice(["validate", "validate", "chop"]), how=rng.choice(["feed", "validate"]), max=0, lines=ls))
    for i in range(ctx.pick(900, 12000)):
        ls = record(rng, i % 60 == 0)
        if rng.random() < .55:
            ls = mutate(rng, ls)
        if rng.random() < .35:
            out.append(dict(op="chop", lines=ls))
        else:
            total = sum(x["size"] for x in ls)
            big = rng.choice([0, 0, 0, total + 1, total, total - 1, total + 50, rng.randint(1, total + 100), total // 2])
            out.append(dict(op="validate", how=rng.choice(["feed", "validate", "validate"]), max=max(big, 0), lines=ls))
    files = sorted(glob.glob(os.path.join(ctx.source(), "bglib", "record", "snowietxt", "*.txt")))
    rng.shuffle(files)
    for p in files[:ctx.pick(25, 400)]:
        try:
            text = open(p, newline="").read()
            text.encode("ascii")
        except Exception:
            continue
        ls = [classify(t) for t in text.splitlines(True)]
        ls = ls[:ctx.pick(150, 400)]
        out.append(dict(op="validate", how="validate", max=0, lines=ls))
        out.append(dict(op="chop", lines=ls))
        out.append(dict(op="validate", how="validate", max=0, lines=mutate(rng, ls)))
    # the splitter needs a match length line to head its games
    return [j for j in out if j["op"] != "chop" or any(x["k"] == "game" for x in j["lines"])]


def run(ctx):
    def model():
        ctx.mc("MCSnowie", ctx.pick("MCSnowie.cfg", "MCSnowieT.cfg"), workers=3, min_states=100, timeout=850)

    def bind():
        recs = ctx.drive("record", ctx.replay or jobs_(ctx), procs=3, stub=True)
        ctx.sample(recs[:1])
        ctx.judge("JudgeSnowie", recs)
    ctx.run_parallel(model, bind)
