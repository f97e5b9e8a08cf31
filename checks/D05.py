"""D05: the HTML helpers.  MCHtml shows the laws of Html.tla for every short text; long random texts, pairs of documents and fragments
go through the real helpers and JudgeHtml compares them with the same operators."""
LEVEL = "model_checking"
ASSUMPTIONS = ["cmp_tuple is judged on attribute values of letters, digits and :;./- (what its own grammar reads) and not on blanks before the first tag",
               "validate: fragments do not name html or body"]
TAGS = ["p", "div", "a", "span", "ul", "li", "h1", "table", "td"]


def text(rng, n, alpha):
    return [rng.choice(alpha) for _ in range(n)]


def doc(rng, n):
    out = []
    for _ in range(n):
        if rng.random() < .6 or not out or out[-1]["y"] == "text":
            names = rng.sample(["class", "href", "id", "title", "src", "alt", "width"], rng.choice([0, 0, 1, 2, 3] if rng.random() < .95 else [4, 5, 7]))
            out.append(dict(y="tag", n=rng.choice(["", "/"]) + rng.choice(TAGS), at=[k + "=" + rng.choice(["x", "y1", "/a/b.png", "a;b:c-d"]) for k in names], t=[]))
        else:
            out.append(dict(y="text", n="", at=[], t=text(rng, rng.choice([1, 2, 5]), "ab &;.,  \n")))
    return out


def render(ts):
    s = ""
    for t in ts:
        if t["y"] == "text":
            s += "".join(t["t"])
        else:
            s += "<" + t["n"] + "".join(" %s=\"%s\"" % tuple(a.split("=")) for a in t["at"]) + ">"
    return s


def variant(rng, ts):
    ts = [dict(t, at=list(t["at"]), t=list(t["t"])) for t in ts]
    for t in ts:
        rng.shuffle(t["at"])
        if t["y"] == "text" and rng.random() < .5:
            t["t"] = rng.choice([[], [" "], ["\n"], ["\n", " "]]) + t["t"] + rng.choice([[], [" "], ["\n"]])
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
        i = rng.randrange(len(ts))
        k = rng.random()
        if k < .2:
            del ts[i]
            if not ts:
                return doc(rng, 2)
        elif k < .4 and ts[i]["at"]:
            j = rng.randrange(len(ts[i]["at"]))
            name = ts[i]["at"][j].split("=")[0]
            ts[i]["at"][j] = name + "=" + rng.choice(["x", "zz"])
        elif k < .5 and ts[i]["at"]:
            del ts[i]["at"][0]
        elif k < .65 and ts[i]["y"] == "tag":
            ts[i]["n"] = rng.choice(["", "/"]) + rng.choice(TAGS)
        elif k < .85 and ts[i]["y"] == "text":
            ts[i]["t"] = ts[i]["t"] + [rng.choice("ab &\n")]
        elif i + 1 < len(ts):
            ts[i], ts[i + 1] = ts[i + 1], ts[i]
    out = []
    for t in ts:            # neighbouring texts are one text
        if t["y"] == "text" and out and out[-1]["y"] == "text":
            out[-1]["t"] = out[-1]["t"] + t["t"]
        else:
            out.append(t)
    return out


def clean(ts):
    """Starts with a tag or a letter: blanks before it are not judged."""
    while ts and ts[0]["y"] == "text" and ts[0]["t"] and ts[0]["t"][0] in " \n":
        ts[0]["t"] = ts[0]["t"][1:]
    return [t for t in ts if t["y"] == "tag" or t["t"]] or [dict(y="tag", n="p", at=[], t=[])]


def fragment(rng):
    tags, html, open_ = [], "", []
    for _ in range(rng.choice([1, 2, 4, 8, 16] if rng.random() < .93 else [60, 200])):
        k = rng.random()
        n = rng.choice(TAGS)
        if k < .35:
            tags.append(dict(e="o", n=n))
            open_.append(n)
            html += "<%s%s>" % (n, rng.choice(["", ' class="x"', ' title="a b"']))
        elif k < .7 and open_:
            m = open_.pop() if rng.random() < .95 else n
            tags.append(dict(e="c", n=m))
            html += "</%s>" % m
        elif k < .8:
            n = rng.choice(["br", "img"])
            tags.append(dict(e="s", n=n))
            html += "<%s />" % n
        else:
            html += rng.choice(["text", "a &amp; b", "&lt;x&gt;", "\n", " "])
    if rng.random() < .8:
        for n in reversed(open_):
            tags.append(dict(e="c", n=n))
            html += "</%s>" % n
    return dict(op="fragment", tags=tags, html=html)


def jobs_(ctx):
    rng = ctx.rng
    out = []
    for i in range(ctx.pick(600, 6000)):
        if i % 12 == 11:    # pages
            out.append(dict(op="text", s=list(render(doc(rng, rng.choice([3, 20, 70, 120]))))))
        if i % 300 == 299:  # very many tags
            out.append(dict(op="text", s=list("".join(rng.choice(["<b>", "</b>", "<i>x", "</i>", "<p>\n"]) for _ in range(rng.randint(300, 400))))))
        out.append(dict(op="text", s=text(rng, rng.choice([0, 1, 3, 8, 20] if rng.random() < .9 else [70, 150, 400]), "<>&;ltgamp?\"'\n ab")))
    for i in range(ctx.pick(800, 8000)):
        a = text(rng, rng.choice([0, 1, 2, 4, 10] if rng.random() < .9 else [50, 150, 300]), "<>&\n ab")
        if i % 10 == 9:     # pages, also long ones
            a = list(render(doc(rng, rng.choice([5, 30, 60] if i % 40 else [120]))))
        b = list(a)
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            j = rng.randint(0, len(b))
            b[j:j + rng.choice([0, 0, 1])] = rng.choice([["\n"], ["\n"], [], [rng.choice("<>&\n ab")]])
        out.append(dict(op="pair", a=a, b=b))
    for i in range(ctx.pick(1000, 10000)):
        a = clean(doc(rng, rng.choice([1, 2, 4, 8] if rng.random() < .93 else [25, 60, 250])))
        b = clean(variant(rng, a)) if rng.random() < .9 else clean(doc(rng, 2))
        out.append(dict(op="docs", a=a, b=b, ha=render(a), hb=render(b)))
    for i in range(ctx.pick(500, 5000)):
        out.append(fragment(rng))
    return out


def run(ctx):
    def model():
        ctx.mc("MCHtml", ctx.pick("MCHtml.cfg", "MCHtmlT.cfg"), workers=3, min_states=1000, timeout=850)

    def bind():
        recs = ctx.drive("doc", ctx.replay or jobs_(ctx), procs=4)
        ctx.sample(recs[:1])
        ctx.judge("JudgeHtml", recs)
    ctx.run_parallel(model, bind)
