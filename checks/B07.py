"""B07: boards are values, editors are variables.  MCValues checks the store design; histories simulated by TLC (GenValues) are replayed
into the real classes, the whole store, its equalities and dictionary keys observed after every step and judged by TLC."""
import json
import vgen
LEVEL = "model_checking"
ASSUMPTIONS = ["field values are of the documented (immutable) types"]
POS = [[[0] * 5 + [5, 0, 3] + [0] * 4 + [5] + [0] * 10 + [2, 0]] * 2, [[1] + [0] * 24, [0] * 24 + [1]], [[0] * 24 + [1], [1] + [0] * 24], [[0] * 25] * 2]
VALUES = dict(position=POS, cube_in_logarithm=[0, 1, 2, 6], cube_owner=[3, 0, 1, 3], on_action=[0, 1, 0, 1], crawford=[False, True, False, True],
              game_state=[0, 1, 2, 4], on_inner_action=[0, 1, 0, 1], doubled=[False, True, False, True], resign_offer=[0, 1, 2, 3],
              rolled=[[0, 0], [1, 2], [2, 1], [6, 6]], match_length=[0, 5, 7, 25], score=[[0, 0], [1, 2], [2, 1], [0, 3]])


def concrete(hist):
    ev = []
    for h in hist:
        kw = {}
        if h["op"] in ("set", "del"):
            kw = {h["f"]: VALUES[h["f"]][h["v"]]}
        elif h["op"] in ("board", "editor", "from") and h["v"]:
            kw = {h["f"]: VALUES[h["f"]][h["v"]]}
        ev.append(dict(h, kw=kw))
    return dict(op="values", events=ev)


def run(ctx):
    def model():
        ctx.mc("MCValues", ctx.pick("MCValues.cfg", "MCValuesT.cfg"), workers=3, min_states=1000, timeout=850)

    def bind():
        jobs = ctx.replay
        if not jobs:
            n = ctx.pick(300, 2500)
            got = ctx.mc("GenValues", workers=1, timeout=800, extra=["-simulate", "num=%d" % n, "-depth", "15", "-seed", str(ctx.seed)])
            if len(got) < n // 2:
                raise Exception("GenValues produced only %d histories" % len(got))
            if len(got) > 6 * n:
                got = ctx.rng.sample(got, 6 * n)
            jobs = [concrete(h) for h in got]
            # pairs of boards that differ in exactly one field, for every field and value
            for f in sorted(VALUES):
                for a in range(4):
                    for b in range(4):
                        jobs.append(dict(op="values", events=[dict(op="board", i=0, v=a, f=f, kw={f: VALUES[f][a]}), dict(op="editor", i=0, v=0, f=f, kw={}),
                                                              dict(op="set", i=2, v=b, f=f, kw={f: VALUES[f][b]}), dict(op="freeze", i=2, v=0, f=f, kw={}),
                                                              dict(op="set", i=2, v=a, f=f, kw={f: VALUES[f][a]}), dict(op="from", i=1, v=b, f=f, kw={f: VALUES[f][b]}),
                                                              dict(op="act", i=2, v=b, f=f, kw={}), dict(op="freeze", i=4, v=0, f=f, kw={})]))
        recs = []
        for r in ctx.drive("model", jobs, procs=4):
            recs += r["trace"]
        ctx.sample(recs[:1])
        ctx.judge("JudgeValues", recs, split=lambda r: r["first"])
    ctx.run_parallel(model, bind)
