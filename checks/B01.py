"""B01: turn/cube/resignation protocol.  TLC enumerates every reachable board of the bounded model (MCProtocol) and checks its
invariants; in each of those boards every action is tried on the real editor, and seeded histories of arbitrary actions are
recorded; TLC validates every step and every legality predicate (JudgeProtocol)."""
import json
import vgen
LEVEL = "model_checking"
ACTIONS = [dict(op="roll", w=w, dice=[5, 2]) for w in (0, 1)] + [dict(op="pickup")] + \
          [dict(op=o, w=w) for o in ("double", "take", "drop", "accept", "reject") for w in (0, 1)] + \
          [dict(op="offer", w=w, n=n) for w in (0, 1) for n in (0, 1, 2, 3)]


def histories(ctx, n):
    rng = ctx.rng
    jobs = []
    for _ in range(n):
        ml = rng.choice([0, 0, 1, 2, 3, 5, 7, 25, 64, 99])
        cube = rng.choice([0, 0, 0, 1, 2, 3, 5, 6, 7, 10])
        who = rng.randint(0, 1)
        init = dict(position=vgen.position(rng), on_action=who, on_inner_action=who, game_state=1, match_length=ml, cube_in_logarithm=cube,
                    cube_owner=3 if cube == 0 else rng.randint(0, 1), crawford=ml > 0 and rng.random() < .15,
                    score=[rng.randint(0, max(0, ml - 1)), rng.randint(0, max(0, ml - 1))] if ml else rng.choice([[0, 0], [2, 5], [rng.randint(0, 300), rng.randint(0, 300)]]))
        ev = []
        for _ in range(rng.randint(4, 25)):
            c = rng.random()
            if c < .25: ev.append(dict(op="roll", w=rng.randint(0, 1), dice=vgen.roll(rng)))
            elif c < .40: ev.append(dict(op="pickup"))
            elif c < .65: ev.append(dict(op="double", w=rng.randint(0, 1)))
            elif c < .80: ev.append(dict(op="take", w=rng.randint(0, 1)))
            elif c < .85: ev.append(dict(op="drop", w=rng.randint(0, 1)))
            elif c < .90: ev.append(dict(op="offer", w=rng.randint(0, 1), n=rng.choice([0, 1, 2, 3, 4, -1])))
            elif c < .98: ev.append(dict(op="reject", w=rng.randint(0, 1)))
            else: ev.append(dict(op="accept", w=rng.randint(0, 1)))
        if rng.random() < .7:   # keep the history coherent: pass the turn only after rolling
            out = []
            for e in ev:
                if e["op"] == "pickup":
                    if rng.random() < .3: continue
                out.append(e)
            ev = out
        jobs.append(dict(op="protocol", init=init, events=coherent(init, ev)))
    return jobs


def decisions(ctx, n):
    """short histories that end in a decision (take, drop, accept, reject) on boards of every kind, then ask everything again"""
    rng = ctx.rng
    jobs = []
    while len(jobs) < n:
        ml = rng.choice([0, 0, 0, 1, 3, 5, 7, 11, 25, 64, 99, 1500, rng.randint(2, 40)])
        cube = rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10])
        who = rng.randint(0, 1)
        opp = 1 - who
        score = [rng.randint(0, ml - 1), rng.randint(0, ml - 1)] if ml else [rng.choice([0, 0, 1, 2, rng.randint(0, 5000)]), rng.choice([0, 0, 1, 2, rng.randint(0, 5000)])]
        doubling = rng.random() < .6
        crawford = ml > 0 and not doubling and rng.random() < .2
        owner = rng.choice([3, who]) if doubling else rng.choice([0, 1, 3])
        if doubling and ml and score[who] + 2 ** cube >= ml: continue
        init = dict(position=vgen.position(rng), on_action=who, on_inner_action=who, game_state=1, match_length=ml, cube_in_logarithm=cube,
                    cube_owner=owner, crawford=crawford, score=score)
        ev = []
        if doubling:
            ev.append(dict(op="double", w=who))
            ev.append(dict(op=rng.choice(["drop", "drop", "take"]), w=opp if rng.random() < .9 else who))
            if ev[-1] == dict(op="take", w=opp):
                ev += [dict(op="roll", w=who, dice=vgen.roll(rng)), dict(op="pickup"), dict(op="double", w=opp), dict(op=rng.choice(["drop", "take"]), w=who)]
        else:
            if rng.random() < .5: ev.append(dict(op="roll", w=who, dice=vgen.roll(rng)))
            ev.append(dict(op="offer", w=who, n=rng.choice([1, 2, 3])))
            if rng.random() < .3: ev += [dict(op="reject", w=opp), dict(op="offer", w=who, n=rng.choice([1, 2, 3]))]
            ev.append(dict(op=rng.choice(["accept", "accept", "reject"]), w=opp if rng.random() < .9 else who))
        ev.append(dict(op=rng.choice(["double", "take", "drop", "reject", "accept"]), w=rng.randint(0, 1)))
        jobs.append(dict(op="protocol", init=init, events=coherent(init, ev)))
    return jobs


def coherent(init, ev):
    """drop 'pickup' events on boards where a decision is pending: passing the turn then is outside the property"""
    b = dict(init, doubled=False, resign_offer=0)
    inner, act, doubled, resign, rolled, over = init["on_inner_action"], init["on_action"], False, 0, False, False
    out = []
    ml, cube, owner, score = init["match_length"], init["cube_in_logarithm"], init["cube_owner"], init["score"]
    for e in ev:
        op, w = e["op"], e.get("w")
        turn = not over and act == inner
        if op == "pickup":
            if not (turn and rolled): continue
            act, inner, rolled = 1 - act, 1 - inner, False
        elif op == "roll" and turn and w == act and not rolled: rolled = True
        elif op == "double" and turn and w == act and not rolled and not init["crawford"] and owner in (w, 3) and (ml == 0 or score[w] + 2 ** cube < ml):
            doubled, inner = True, 1 - w
        elif op == "take" and not over and doubled and inner == w: doubled, inner, cube, owner = False, act, cube + 1, w
        elif op == "drop" and not over and doubled and inner == w: over = True
        elif op == "offer" and turn and w == act and e["n"] in (1, 2, 3): resign, inner = e["n"], 1 - w
        elif op == "reject" and not over and resign and inner == w: resign, inner = 0, 1 - w
        elif op == "accept" and not over and resign and inner == w: over = True
        out.append(e)
    return out


def run(ctx):
    got = ctx.mc("MCProtocol", ctx.pick("MCProtocol.cfg", "MCProtocolT.cfg"), workers=1, min_states=500)
    states = {json.dumps(g, sort_keys=True): g for g in got}
    jobs = []
    if ctx.replay is None:
        for k, s in sorted(states.items()):
            pos = vgen.position(ctx.rng)
            pend = s["on_action"] != s["on_inner_action"]
            rolled = s["rolled"] != [0, 0]
            for a in ACTIONS:
                if a["op"] == "pickup" and (pend or not rolled or s["game_state"] != 1): continue
                jobs.append(dict(op="protocol", init=dict(s, position=pos), events=[a]))
        if not ctx.thorough and len(jobs) > 24000:
            ctx.rng.shuffle(jobs)
            jobs = jobs[:24000]
        ctx.notes["model_boards"] = len(states)
        ctx.notes["single_actions"] = len(jobs)
        jobs += histories(ctx, ctx.pick(1200, 10000)) + decisions(ctx, ctx.pick(2500, 15000))
    else:
        jobs = ctx.replay
    recs = []
    for r in ctx.drive("model", jobs, procs=6):
        recs += r["trace"]
    ctx.sample(recs[:2])
    ctx.judge("JudgeProtocol", recs, split=lambda r: r["op"] == "begin")
