# Feeds sessions of lines to real CookieMonsters (two side by side).
from bglib.protocol.fibs import CookieMonster


def handle(job):
    ms = {1: CookieMonster(), 2: CookieMonster()}
    out = []
    for s in job["lines"]:
        out.append(ms[s["who"]].make_cookie(str(s["text"])))
    return dict(cookies=out, job=job)
