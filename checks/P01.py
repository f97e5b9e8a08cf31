"""P01: real CookieMonsters read seeded sessions; TLC follows the phase and decides every cookie against Cookie.tla.  Which
patterns match a line is computed here with `re` from the pinned table data/fibs_patterns.json (the protocol's documentation)."""
import json, os, re
import vlib
try:
    import re._parser as sre
except ImportError:
    import sre_parse as sre
LEVEL = "model_checking"
ASSUMPTIONS = ["regular expression matching itself is Python's re (same pattern language in Jython); patterns are matched at the start of the line",
               "lines matched by patterns of several cookies may get any of them"]
TABLE = json.load(open(os.path.join(vlib.VERIF, "data", "fibs_patterns.json")))
COMPILED = {ph: {c: [re.compile(p) for p in ps] for c, ps in t.items()} for ph, t in TABLE.items()}


def matching(text):
    return {ph: sorted(c for c, ps in t.items() if any(p.match(text) for p in ps)) for ph, t in COMPILED.items()}


def gen(tree, rng):
    out = ""
    for op, av in tree:
        op = str(op)
        if op == "LITERAL":
            out += chr(av)
        elif op == "NOT_LITERAL":
            out += rng.choice([c for c in "abcXYZ019 *_-" if ord(c) != av])
        elif op == "ANY":
            out += rng.choice("abz AZ09.*")
        elif op == "IN":
            pool = []
            neg = False
            for o, a in av:
                o = str(o)
                if o == "NEGATE": neg = True
                elif o == "LITERAL": pool.append(chr(a))
                elif o == "RANGE": pool += [chr(x) for x in range(a[0], a[1] + 1)]
            if neg:
                pool = [c for c in "abcXYZ0123456789 *_->:" if c not in pool]
            out += rng.choice(pool)
        elif op in ("MAX_REPEAT", "MIN_REPEAT"):
            lo, hi, sub = av
            for _ in range(rng.randint(lo, min(int(hi), lo + rng.choice([0, 1, 4] if rng.random() < .985 else [40, 140, 300])))):
                out += gen(sub, rng)
        elif op == "SUBPATTERN":
            out += gen(av[-1], rng)
        elif op == "BRANCH":
            out += gen(rng.choice(av[1]), rng)
        elif op == "AT":
            pass
        else:
            raise Exception("regex op " + op)
    return out


ALLPATS = [(ph, c, p) for ph in sorted(TABLE) for c in sorted(TABLE[ph]) for p in TABLE[ph][c]]
WORDS = ["foo", "You", "bob_x", "wins", "doubles.", "board:", "**", "*", "3", "4", "5", "12", "You roll 3 and 4", "is", "away:", ">", "1", "2"]


def mutate(s, rng):
    k = rng.random()
    if k < .25 and s:
        i = rng.randrange(len(s)); return s[:i] + s[i + 1:]
    if k < .5:
        i = rng.randint(0, len(s)); return s[:i] + rng.choice("abX09 *.:><_-") + s[i:]
    if k < .7:
        return rng.choice([" ", "x", "** ", "foo "]) + s
    if k < .85 and s:
        return s[:rng.randint(0, len(s))]
    return s.swapcase()


def line(rng):
    k = rng.random()
    if k < .6:
        ph, c, p = rng.choice(ALLPATS)
        s = gen(sre.parse(p), rng)
        if not p.endswith("$") and rng.random() < .6:
            s += rng.choice(["", " ", " foo", ". bar 1-2", " 0 0", " points.", " " + "word " * rng.choice([30, 60, 220])])
        if rng.random() < .25:
            s = mutate(s, rng)
        return s
    if k < .66:
        return rng.choice(["", "3", "4", "           Goodbye.", "login:"])
    return " ".join(rng.choice(WORDS) for _ in range(rng.randint(1, 4)))


def session(rng, lines):
    """lines placed in sessions that move through the phases"""
    out = []
    for who in ((1,) if rng.random() < .6 else (1, 2)):
        mine = []
        body = [x for x in lines if rng.random() < .8 or who == 1]
        if rng.random() < .85:
            k = rng.randint(0, min(3, len(body)))
            mine += body[:k] + ["3"] + body[k:k + 2] + ["4"]
            mine += body[k + 2:]
            if rng.random() < .3:
                mine += ["           Goodbye.", rng.choice(lines), "login:", "3", rng.choice(lines), "4"] + body[:3]
        else:
            mine += body
        out.append([dict(who=who, text=t) for t in mine])
    if len(out) == 1:
        return out[0]
    a, b = out
    res = []
    while a or b:
        src = a if a and (not b or rng.random() < .5) else b
        res.append(src.pop(0))
    return res


def run(ctx):
    rng = ctx.rng

    def model():
        ctx.mc("MCCookie", workers=2, min_states=100)

    def bind():
        if ctx.replay:
            jobs = ctx.replay
        else:
            jobs = []
            # every documented pattern, several times, after varied histories
            for rep in range(ctx.pick(6, 60)):
                pats = list(ALLPATS)
                rng.shuffle(pats)
                texts = []
                for ph, c, p in pats:
                    s = gen(sre.parse(p), rng)
                    if rep % 2 and not p.endswith("$"):
                        s += rng.choice([" foo", " 1", ".", ""])
                    texts.append(s)
                for i in range(0, len(texts), 40):
                    jobs.append(dict(lines=session(rng, texts[i:i + 40])))
            for _ in range(ctx.pick(400, 6000)):
                n = rng.randint(3, 30)
                pool = [line(rng) for _ in range(n)]
                jobs.append(dict(lines=session(rng, pool + rng.sample(pool, rng.randint(0, len(pool))))))
        recs = []
        for r in ctx.drive("cookie", jobs, procs=3):
            for i, (s, c) in enumerate(zip(r["job"]["lines"], r["cookies"])):
                recs.append(dict(first=i == 0, who=s["who"], text=s["text"], m=matching(s["text"]), cookie=c if isinstance(c, str) else "<none>"))
        ctx.sample(recs[:5])
        seen = {(ph, c) for r in recs for ph in r["m"] for c in r["m"][ph] if r["cookie"] == c}
        ctx.notes["cookies_given"] = len(seen)
        ctx.notes["cookies_documented"] = sum(len(t) for t in TABLE.values())
        ctx.judge("JudgeCookie", recs, split=lambda r: r["first"])
    ctx.run_parallel(model, bind)
