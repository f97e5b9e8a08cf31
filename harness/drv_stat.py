# Drives bglib.stat: knockout tournaments and rating chances.
import random
import sys

S = 10000


def fx(x):
    return int(round(x * S))


def table(d):
    return [dict(p=str(k), lives=d[k].lives, rating=int(d[k].rating)) for k in sorted(d.keys())]


def knockout_job(job):
    from bglib.stat.tourney import Tourney, Player
    random.seed(job["seed"])
    if job["entries"]:
        e = dict([(str(x["p"]), Player(x["lives"], x["rating"])) for x in job["entries"]])
        t = Tourney(len(e), entries=e)
        want = table(e)
    else:
        t = Tourney(job["n"])
        want = [dict(p=str(i), lives=3, rating=1000) for i in sorted(range(job["n"]), key=lambda k: k)]
        want = sorted(want, key=lambda x: int(x["p"]))
    al = lambda: table(t.alive)
    out = [dict(op="begin", entries=want, alive=al(), dead=table(t.dead), err="", last=False)]
    for n in range(job["rounds"]):
        err = ""
        try:
            t.round()
        except:
            err = repr(sys.exc_info()[1])
        stop = bool(err) or len(t.alive) <= 1
        # the number of lives bounds the number of rounds
        out.append(dict(op="round", alive=al(), dead=table(t.dead), err=err, last=stop or n == job["rounds"] - 1))
        if stop:
            break
    return {"trace": out}


def chance_job(job):
    from bglib.stat import rating
    lo, gap, n = job["lo"], job["gap"], job["len"]
    hi = lo + gap
    r = dict(op="chance", gap=gap, len=n, k=job["k"], err="", inside=True, up=0, win=0, stake="", gainw=0, gainl=0)
    try:
        u, w = rating.upset_chance(hi, lo, n), rating.winning_chance(hi, lo, n)
        a, b = rating.gain_on_win(hi, lo, n), rating.gain_on_win(lo, hi, n)
        r.update(inside=0 <= u <= 1 and 0 <= w <= 1, up=fx(u), win=fx(w), stake=abs(a + b - n) < 1e-9 * n and "exact" or repr(a + b), gainw=fx(a), gainl=fx(b))
    except:
        r["err"] = repr(sys.exc_info()[1])
    return r


def law_job(job):
    from bglib.stat import rating
    f = rating.upset_chance
    lo, a, b, n = job["lo"], job["a"], job["b"], job["len"]
    try:
        return dict(op="law", err="", u1=fx(f(lo + a, lo, n)), u2=fx(f(lo + b, lo, n)), u12=fx(f(lo + a + b, lo, n)), long=fx(f(lo + a, lo, 4 * n)), twice=fx(f(lo + 2 * a, lo, n)))
    except:
        return dict(op="law", err=repr(sys.exc_info()[1]))


def mono_job(job):
    from bglib.stat import rating
    f = rating.upset_chance
    try:
        us = [f(job["lo"] + g, job["lo"], job["len"]) for g in job["gaps"]]
        ls = [f(job["lo"] + job["gap"], job["lo"], n) for n in job["lens"]]
        down = lambda xs: all([x > y for x, y in zip(xs, xs[1:])])
        return dict(op="mono", err="", gapdown=down(us), lendown=down(ls))
    except:
        return dict(op="mono", err=repr(sys.exc_info()[1]))


def tourney_job(job):
    from bglib.stat import rating, tourney
    p, av, n, rounds = job["p"], job["av"], job["len"], job["rounds"]
    try:
        wc = rating.winning_chance(p, av, n) if p >= av else rating.upset_chance(av, p, n)
        w, ru = tourney.tourney_chance(p, av, rounds, n)
        W, R, fee = job["w"], job["r"], job["fee"]
        pw, pr = tourney.prize_handicap(p, av, rounds, n, W, R)
        pf = tourney.entryfee_handicap(p, av, rounds, n, fee)
        aw, ar = tourney.tourney_chance(av, av, rounds, n)
        # winning one round less: a tournament of no rounds is won already
        before = tourney.tourney_chance(p, av, rounds - 1, n)[0] if rounds > 1 else 1.0
        return dict(op="tourney", err="", final=fx((w + ru) / before), step=fx(w / before), wc=fx(wc), rounds=rounds, w=fx(w), ru=fx(ru), sumok=w + ru <= 1 + 1e-12 and w >= 0 and ru >= 0,
                    average=p == av, fair=abs(pw - W) < 1e-9 * W and abs(pr - R) < 1e-9 * R and abs(pf - fee) < 1e-9 * fee and abs(aw - 0.5 ** rounds) < 1e-12,
                    expw=fx(pw * w / (aw * W)), expr=fx(pr * ru / (ar * R)), expf=fx(pf / w * aw / fee))
    except:
        return dict(op="tourney", err=repr(sys.exc_info()[1]))


def handle(job):
    return globals()[job["op"] + "_job"](job)
