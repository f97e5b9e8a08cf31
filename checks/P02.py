"""P02: a real Session on a loopback socket runs seeded histories (arrivals, registrations from outside, from handlers and from
threads started in handlers, closing); TLC decides whether each recorded run is a behaviour of Session.tla."""
import json, os
LEVEL = "model_checking"
ASSUMPTIONS = ["handlers return normally", "one subscriber object is registered at most once at a time",
               "a subscriber unregistered before its turn in a running dispatch may or may not be handed that message"]
COOK = {"CLIP_WELCOME": "1 user %d x", "CLIP_OWN_INFO": "2 user 1 %d", "FIBS_PreLogin": "hello %d"}
ALL = ["CLIP_WELCOME", "CLIP_OWN_INFO", "FIBS_PreLogin", "FIBS_LoginPrompt", "EOFError"]


def text(c, n):
    if c == "CLIP_OWN_INFO":
        return "2 user %d 1 m%d" % (n % 2, n)
    return COOK[c] % (n + 10)


def several(rng, x, free, reg):
    """x, sometimes with others in the same state: one call on all of them"""
    if rng.random() < .6:
        return [x]
    xs = [x] + [y for y in free if y != x and (y in reg) == (x in reg)][:rng.choice([1, 2, 4])]
    rng.shuffle(xs)
    return xs


def flip(reg, xs):
    """the op these subscribers can take, which is taken"""
    if xs[0] in reg:
        reg.difference_update(xs)
        return "unreg"
    reg.update(xs)
    return "reg"


def job(rng):
    k = rng.randint(2, 5) if rng.random() < .93 else rng.randint(6, 12)
    subs = [dict(name=1, cookies=ALL)]
    for i in range(2, k + 2):
        subs.append(dict(name=i, cookies=[c for c in ALL if rng.random() < .75]))
    names = [s["name"] for s in subs[1:]]
    early = [n for n in names if rng.random() < .75]
    rng.shuffle(early)
    before = [dict(op="reg", args=[1])]
    if early and rng.random() < .5:
        before.append(dict(op="reg", args=early))
    else:
        before += [dict(op="reg", args=[n]) for n in early]
    # the state below is only used to keep the script meaningful (no double registration); TLC judges
    reg = set(early)
    used = set()
    script, handlers, gates = [], [], []
    n = 0
    busy = set()          # subscribers some handler or thread acts upon: leave them alone afterwards
    sent = []
    nmsg = rng.randint(2, 7) if rng.random() < .93 else rng.randint(10, 30)
    for _ in range(nmsg):
        c = rng.choice(list(COOK))
        n += 1
        t = text(c, n) + rng.choice(["", "", " ", " you  say: hello?", " " + "x" * rng.randint(1, 300), " \t*** %d (%d) ***" % (rng.randrange(99), n), "  1 2 3"])
        if c == "FIBS_PreLogin" and rng.random() < .15:
            t = rng.choice(["", " ", "login", "1", "2 user"])
        if sent and rng.random() < .15:     # the same message again
            c, t = rng.choice(sent[-2:])
        sent.append((c, t))
        if rng.random() < .65:
            # a handler of this message acts
            actors = [1] + [s["name"] for s in subs[1:] if s["name"] in reg and c in s["cookies"]]
            actor = rng.choice(actors)
            acts = []
            for _ in range(rng.randint(1, 2)):
                free = [x for x in names if x not in busy]
                if not free:
                    break
                x = actor if actor in free and rng.random() < .4 else rng.choice(free)
                xs = several(rng, x, free, reg)
                busy.update(xs)
                acts.append(dict(op=flip(reg, xs), args=xs, thread=rng.random() < .45))
            if acts:
                handlers.append(dict(s=actor, text=t, acts=acts))
        elif rng.random() < .4:
            # another thread acts between the reading and the dispatching of this message
            free = [x for x in names if x not in busy]
            if free:
                xs = several(rng, rng.choice(free), free, reg)
                busy.update(xs)
                gates.append(dict(text=t, acts=[dict(op=flip(reg, xs), args=xs)]))
        wait = rng.random() < .6
        script.append(dict(op="send", cookie=c, text=t, wait=wait, split=False if rng.random() < .8 else (.5 if rng.random() < .1 else True)))
        if wait:
            busy.clear()
        free = [x for x in names if x not in busy]
        if free and rng.random() < .4:
            xs = several(rng, rng.choice(free), free, reg)
            busy.update(xs)
            th = rng.random() < .4
            script.append(dict(op=flip(reg, xs), args=xs, thread=th))
            if not th and wait:
                busy.difference_update(xs)
        if rng.random() < .1 and wait:
            script.append(dict(op="send", cookie="FIBS_LoginPrompt", text="login: ", wait=True))
    n += 1
    last = "last %d" % n
    script += [dict(op="send", cookie="FIBS_PreLogin", text=last, wait=True), dict(op="idle"), dict(op="active")]
    end = rng.random()
    if end < .3:
        script += [dict(op="eof"), dict(op="idle"), dict(op="close")]
    elif end < .45:     # closed more than once
        script += [dict(op="close")] * rng.choice([2, 2, 3]) + [dict(op="pause"), dict(op="send", cookie="FIBS_PreLogin", text="late 1"), dict(op="pause")]
    elif end < .6:
        script += [dict(op="close"), dict(op="send", cookie="FIBS_PreLogin", text="late 1"), dict(op="send", cookie="FIBS_PreLogin", text="late 2"), dict(op="pause")]
    elif end < .7:      # closed by another thread, once or more, while the listener holds a line it has not dispatched yet
        t = "bye 0"
        gates.append(dict(text=t, acts=[dict(op="close")] * rng.choice([1, 2, 3])))
        script += [dict(op="send", cookie="FIBS_PreLogin", text=t), dict(op="pause"), dict(op="pause"), dict(op="send", cookie="FIBS_PreLogin", text="late 1"), dict(op="pause")]
    elif end < .8:      # closed by a handler
        t = "bye 1"
        handlers.append(dict(s=1, text=t, acts=[dict(op="close", thread=False)] * rng.choice([1, 2])))
        script += [dict(op="send", cookie="FIBS_PreLogin", text=t, wait=True), dict(op="send", cookie="FIBS_PreLogin", text="late 1"), dict(op="pause")]
    else:               # closed by a thread while a handler runs
        t = "bye 2"
        handlers.append(dict(s=1, text=t, acts=[dict(op="close", thread=True)]))
        script += [dict(op="send", cookie="FIBS_PreLogin", text=t, wait=True), dict(op="pause"), dict(op="send", cookie="FIBS_PreLogin", text="late 1"), dict(op="pause")]
    script += [dict(op="terminated"), dict(op="active")]
    return dict(subs=subs, before=before, script=script, handlers=handlers, gates=gates, shared=rng.random() < .4)


def run(ctx):
    def model():
        ctx.mc("MCSession", ctx.pick("MCSession.cfg", "MCSessionT.cfg"), workers=ctx.pick(2, 4), min_states=1000, timeout=800)

    def bind():
        js = ctx.replay or [job(ctx.rng) for _ in range(ctx.pick(250, 1500))]
        recs = ctx.drive("session", js, procs=4, timeout=700)
        ctx.sample(recs[0]["trace"] if recs else {})
        ctx.accept("TraceSession", recs)
        acts = {}
        for r in recs:
            for e in r["trace"]:
                acts[e["ev"]] = acts.get(e["ev"], 0) + 1
        ctx.notes["events"] = acts
    ctx.run_parallel(model, bind)
