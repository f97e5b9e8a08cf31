"""I01: style sheets and the typed attributes of picture elements.  Style.tla is the semantics (vocabulary, conversion, matching, cascade,
inheritance); MCStyle explores every small sheet on a small tree; random trees and sheets are run by the real css module and judged."""
LEVEL = "model_checking"
ASSUMPTIONS = ["values come from a table of literals whose conversions the specification lists", "conditions in selectors are on attributes the element itself has been given",
               "what a refused sheet has already changed is not judged"]
CONTENT = dict(board=["match", "position"], match=["action", "length", "crawford", "score"], position=["cubeholder", "field", "home", "bar", "point", "top_frame", "bottom_frame"],
               cubeholder=["cube"], field=["die", "cube", "resign"], home=["cube", "chequer"], bar=["chequer"], point=["chequer"])
KINDS = "board match action length crawford score position top_frame bottom_frame cubeholder field die cube resign home chequer bar point".split()
COMMON = dict(x="int", y="int", width="int", height="int", image="uri", flip="bool", background="str", color="str", font="uri", mag="float")
PL = dict(player="player")
OFF = dict(x_offset="int", y_offset="int")
OWN = dict(action=PL, score=PL, bar=PL, field=dict(PL, text="str"), die=dict(backgammon="str", diestyle="diestyle", eyesize="int", id="str"), cube=dict(initialCube="str"),
           resign=dict(PL, **OFF), home=dict(PL, fill="bool"), chequer=dict(PL, x_offset2="int", y_offset2="int", hide_count="bool", max_count="int", **OFF),
           point=dict(fill="bool", parity="parity"))
INTS = ["0", "7", "-3", "12", "007", "010", "08", "42"]
VALS = dict(int=INTS, float=INTS + ["1.5", "0.25"], bool=["True", "true", "TRUE", "False", "false"], uri=['uri("a.jpg")', 'uri("b/c.ttf")'], diestyle=["dot", "numeric"],
            parity=["even", "odd"], player=["you", "him"], str=["red", "white", "7", "True", "you", "a-b_c"])
TYPED = dict(int=["int:0", "int:7", "int:-3", "int:12", "int:42"], float=["float:1.5", "float:0.25", "float:7.0"], bool=["bool:True", "bool:False"],
             uri=["str:img/x.png", "str:a.jpg"], diestyle=["str:dot", "str:numeric"], parity=["str:even", "str:odd"], player=["str:you", "str:him"], str=["str:red", "str:white", "str:7"])
TEXTS = ["0", "1", "2", "64", "True", "None"]


def attrs(k):
    return dict(COMMON, **OWN.get(k, {}))


def tree(rng, size):
    kind, par = [rng.choice(["board"] * 5 + KINDS)], [0]
    # document order: a new element goes below the last one or one of its ancestors
    while len(kind) < size:
        p = len(kind)
        while par[p - 1] and (rng.random() < .4 or kind[p - 1] not in CONTENT):
            p = par[p - 1]
        if kind[p - 1] not in CONTENT:
            break
        kind.append(rng.choice(CONTENT[kind[p - 1]]))
        par.append(p)
    own, data = [], []
    for k in kind:
        o = {"_": ""}
        for a, ty in sorted(attrs(k).items()):
            if rng.random() < .14:
                o[a] = rng.choice(TYPED[ty])
        own.append(o)
        # elements without text content refuse it
        data.append([rng.choice(TEXTS) for _ in range(rng.choice([0, 1, 1, 2]))] if k not in ("board", "match", "position") else [])
    return dict(kind=kind, par=par, own=own, data=data, make=rng.choice(["args", "set"]))


def selector(rng, k, t):
    s = dict(e=k, n="", v="", d="")
    if rng.random() < .45:
        a, ty = rng.choice(sorted(attrs(k).items()))
        if rng.random() < .6:       # one that some element has
            have = [(b, x) for i, q in enumerate(t["kind"]) if q == k for b, x in sorted(t["own"][i].items()) if b != "_"]
            if have:
                a = rng.choice(have)[0]
                ty = attrs(k)[a]
        vs = [v for v in VALS[ty] + (VALS["str"] if rng.random() < .2 else []) if "(" not in v and "." not in v] or ["a"]
        s["n"], s["v"] = a, rng.choice(vs)
    if rng.random() < .25:
        s["d"] = rng.choice(TEXTS)
    return s


def show(s):
    return s["e"] + ("[%s=%s]" % (s["n"], s["v"]) if s["n"] else "") + (":data(%s)" % s["d"] if s["d"] else "")


def sheet(rng, t, bad):
    rules, lines = [], []
    for _ in range(rng.choice([1, 2, 3, 5, 8] if rng.random() < .96 else [20, 45])):
        i = max(rng.randrange(len(t["kind"])) for _ in range(rng.choice([1, 2])))
        path = []
        while True:
            path.insert(0, t["kind"][i])
            if not t["par"][i]:
                break
            i = t["par"][i] - 1
        if rng.random() < .15:
            path = [rng.choice(KINDS) for _ in range(rng.choice([1, 2]))]
        ks = [k for k in path[:-1] if rng.random() < .3] + path[-1:]
        plain = rng.random() < .4       # conditions on few elements only, so that long patterns do match
        if plain and len(path) > 1:
            ks = rng.choice([path, path[:1] + path[-1:], path[:-2] + path[-1:], ks, path[:-1][::-1] + path[-1:]])
        if rng.random() < .12:      # more selectors than there are elements on the way down
            ks = [rng.choice(KINDS) if rng.random() < .6 else rng.choice(path) for _ in range(rng.choice([1, 2, 5]))] + path
        sel = [dict(e=k, n="", v="", d="") if plain and rng.random() < .9 else selector(rng, k, t) for k in ks]
        block = []
        for _ in range(rng.choice([1, 1, 2, 4] if rng.random() < .96 else [9, 14])):
            a, ty = rng.choice(sorted(attrs(ks[-1]).items()))
            if ks[-1] == "bar" and a == "fill":
                continue
            v = rng.choice(VALS[ty])
            if rng.random() < bad:
                if rng.random() < .3:
                    a = rng.choice(["colour", "id", "fill", "parity", "text", "x-offset"])
                else:
                    v = rng.choice(rng.choice(list(VALS.values())))
            block.append(dict(n=a, v=v))
        sp = lambda: " " * rng.choice([0, 0, 1, 2])
        lines.append(sp() + (" " + sp()).join(map(show, sel)) + sp() + "{" + ";".join(sp() + b["n"] + sp() + ":" + sp() + b["v"] + sp() for b in block) + rng.choice(["", ";", "; "]) + "}" + sp())
        rules.append(dict(sel=sel, block=block))
        if rng.random() < .2:
            lines.append(rng.choice(["", "   ", "# a remark", "/* no rule */"]))
    return dict(rules=rules, lines=lines, how=rng.choice(["parser", "load", "css"]), dir=rng.choice(["res/x", "a", "/abs/dir"]))


def jobs_(ctx):
    rng = ctx.rng
    out = [dict(op="dtd")] + [dict(op="append", parent=p, child=c) for p in KINDS for c in KINDS + ["#PCDATA"]]
    for i in range(ctx.pick(900, 14000)):
        t = tree(rng, rng.choice([1, 2, 4, 7, 12] if rng.random() < .96 else [25, 50]))
        out.append(dict(t, op="sheet", **sheet(rng, t, rng.choice([0, 0, 0, .15]))))
    for i in range(ctx.pick(300, 5000)):
        t = tree(rng, rng.choice([1, 3, 6]))
        sets = []
        for _ in range(rng.choice([2, 6, 12] if rng.random() < .96 else [40])):
            j = rng.randrange(len(t["kind"]))
            a, ty = rng.choice(sorted(attrs(t["kind"][j]).items()))
            if rng.random() < .1:
                a = rng.choice(["id", "fill", "parity", "text", "max_count"])
                ty = attrs(t["kind"][j]).get(a, ty)
            v = rng.choice(TYPED[ty]) if rng.random() < .8 else rng.choice(rng.choice(list(TYPED.values())))
            if ty == "int" and v.startswith("bool"):
                continue
            v = v.split(":")
            sets.append(dict(i=j + 1, a=a, ty=v[0], v=v[1]))
        out.append(dict(t, op="set", sets=sets))
    return out


def run(ctx):
    def model():
        ctx.mc("MCStyle", ctx.pick("MCStyle.cfg", "MCStyleT.cfg"), workers=3, min_states=1000, timeout=850)

    def bind():
        recs = ctx.drive("image", ctx.replay or jobs_(ctx), procs=3)
        ctx.sample([r for r in recs if r.get("op") == "sheet"][:2])
        ctx.judge("JudgeStyle", recs)
    ctx.run_parallel(model, bind)
