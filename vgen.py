"""Seeded generators of positions, rolls and plays.  Only inputs come from here: the specification decides
(and re-checks that every generated step is legal), so a slip here cannot hide a violation."""
N, BAR, OFF = 24, 24, -1


def legal(pos):
    return not any(pos[0][i] and pos[1][23 - i] for i in range(24))


def position(rng, style=None, total=15):
    style = style or rng.choice(["contact", "contact", "blots", "home", "few", "few", "bar", "blocked", "endgame", "ace", "outside", "stack"])
    you, him = [0] * 25, [0] * 25

    def put(side, other, k, pts, blot=False):
        tries = 0
        while k > 0 and tries < 400:
            tries += 1
            i = rng.choice(pts)
            if i < 24 and other[23 - i]:
                continue
            if blot and side[i]:
                continue
            m = 1 if blot else min(k, rng.choice([1, 1, 2, 2, 2, 3, 4, 5]))
            side[i] += m
            k -= m
    allp = list(range(24))
    if style == "contact":
        put(you, him, 15, allp); put(him, you, 15, allp)
        if rng.random() < .2: put(you, him, 0, allp)
    elif style == "blots":
        put(you, him, rng.randint(1, 9), allp, True); put(him, you, rng.randint(1, 9), allp, True)
    elif style == "home":
        put(you, him, rng.randint(1, 15), list(range(6))); put(him, you, rng.randint(1, 15), list(range(8)) if rng.random() < .7 else [24] + allp)
        if rng.random() < .5: you, him = him, you
    elif style == "few":
        put(you, him, rng.randint(1, 3), allp + [24]); put(him, you, rng.randint(1, 15), allp)
        if rng.random() < .5: you, him = him, you
    elif style == "bar":
        put(you, him, rng.randint(1, 3), [24]); put(him, you, rng.choice([6, 10, 15]), list(range(6)) * 3 + allp)
        put(you, him, rng.randint(0, 12), allp)
        if rng.random() < .3: him[24] += 1
        if rng.random() < .5: you, him = him, you
    elif style == "blocked":
        pts = rng.sample(range(24), rng.randint(3, 7))
        for p in pts: him[p] = 2
        put(you, him, rng.randint(1, 6), allp + [24])
        if rng.random() < .5: you, him = him, you
    elif style == "endgame":
        put(you, him, rng.randint(1, 4), list(range(7))); put(him, you, rng.randint(0, 6), allp)
        if rng.random() < .5: you, him = him, you
    elif style == "ace":
        put(you, him, rng.randint(1, 5), [0, 0, 1, 2]); put(him, you, rng.randint(0, 4), [0, 1, 24, 22, 23])
        if rng.random() < .5: you, him = him, you
    elif style == "outside":     # one straggler, the rest home: bear-off conditions change within the turn
        put(you, him, rng.randint(0, 6), list(range(6))); put(you, him, 1, list(range(6, 12)))
        put(him, you, rng.randint(0, 6), [p for p in allp if p > 2])
        if rng.random() < .5: you, him = him, you
    elif style == "stack":       # nearly everything on one point, on the bar, or off
        for s, o in ((you, him), (him, you)):
            p = rng.choice([q for q in range(25) if q == 24 or not o[23 - q]])
            s[p] = rng.choice([15, 15, 14, 12, 9, 7, 1, 0])
            put(s, o, 15 - s[p] if rng.random() < .7 else 0, allp + [24])
        if rng.random() < .5: you, him = him, you
    for s in (you, him):
        while sum(s) > total:
            i = rng.choice([i for i in range(25) if s[i]])
            s[i] -= 1
    pos = [you, him]
    assert legal(pos)
    return pos


def roll(rng):
    if rng.random() < .25:
        d = rng.randint(1, 6)
        return [d, d]
    return [rng.randint(1, 6), rng.randint(1, 6)]


def step_from(pos, w, d, i):
    mine, his = pos[w], pos[1 - w]
    if not mine[i] or (i != BAR and mine[BAR]):
        return None
    j = i - d
    if j >= 0:
        if his[23 - j] >= 2:
            return None
        return dict(die=d, src=i, dest=j, hit=his[23 - j] == 1)
    if any(mine[6:]):
        return None
    if d > i + 1 and any(mine[i + 1:6]):
        return None
    return dict(die=d, src=i, dest=OFF, hit=False)


def steps(pos, w, d):
    return [s for s in (step_from(pos, w, d, i) for i in range(25)) if s]


def apply(pos, w, pm):
    p = [list(pos[0]), list(pos[1])]
    if pm["src"] > OFF: p[w][pm["src"]] -= 1
    if pm["dest"] > OFF: p[w][pm["dest"]] += 1
    if pm["hit"]:
        if pm["dest"] > pm["src"]:
            p[1 - w][23 - pm["src"]] += 1; p[1 - w][BAR] -= 1
        else:
            p[1 - w][23 - pm["dest"]] -= 1; p[1 - w][BAR] += 1
    return p


def dice(rolled):
    a, b = rolled
    return [a] * 4 if a == b else [a, b]


def inverse(pm):
    return dict(die=pm["die"], src=pm["dest"], dest=pm["src"], hit=pm["hit"])


def play(rng, pos, w, rolled, k):
    """at most k legal steps; returns list of steps"""
    av, out = dice(rolled), []
    for _ in range(k):
        cand = [s for d in set(av) for s in steps(pos, w, d)]
        if not cand:
            break
        s = rng.choice(cand)
        av.remove(s["die"])
        pos = apply(pos, w, s)
        out.append(s)
    return out
