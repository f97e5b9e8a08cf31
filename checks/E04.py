"""E04: GNU Backgammon ids.  MCGnubgId shows the published layouts round-trip; real ids of random boards, ids of random bits and
published pairs are compared digit by digit with the layout by TLC."""
import base64, json, os
import vgen, vlib
from checks.E01 import board
LEVEL = "model_checking"
ASSUMPTIONS = ["bit arrays come from a stand-in for the missing package `tonic` (harness/stubs/tonic), written from the documentation in bglib's tests"]


def encodable(rng):
    b = board(rng)
    b["cube_in_logarithm"] = rng.choice([0, 1, 2, 3, 6, 9, 10, 15])
    b["match_length"] = rng.choice([0, 0, 1, 5, 9, 25, 127, 128, 1000, 16384, 32767])
    ml = b["match_length"]
    b["score"] = [0, 0] if ml == 0 and rng.random() < .6 else [rng.choice([0, 1, 2, 7, 255, 256, 16384, 32767, rng.randint(0, 32767)]) for _ in range(2)]
    if rng.random() < .4: b["position"] = vgen.position(rng, "contact")
    return b


def enc64(bits, nbytes):
    by = bytes(sum(bits[8 * k + i] << i for i in range(8) if 8 * k + i < len(bits)) for k in range(nbytes))
    return base64.b64encode(by).decode().rstrip("=")


def random_mid(rng):
    bits = [rng.randint(0, 1) for _ in range(66)]
    if rng.random() < .5:           # a plain money or match game
        for i in range(36, 66): bits[i] = 0 if rng.random() < .9 else 1
        for i in range(21, 36): bits[i] = 0
        bits[8:11] = [1, 0, 0]
    if bits[4:6] == [0, 1]: bits[4] = 1     # owner 2 does not exist
    return enc64(bits, 9)


def pid_of(p):
    bits = []
    for side in p:
        for n in side:
            bits += [1] * n + [0]
    return enc64(bits, 10)


PAIRS = [["4HPwATDgc/ABMA", "cAmgAEAAGAAA"], ["sM/BATCwZ/ABMA", "cAmgAEAAGAAA"], ["d96BAAKz3A4ADA", "QQm7AEAACAAA"], ["dwAABsC22yACAA", "UYkIAAAAAAAA"],
         ["vzsAAFhu2xFABA", "cAkAAAAAAAAA"]]


def run(ctx):
    rng = ctx.rng

    def model():
        ctx.mc("MCGnubgId", ctx.pick("MCGnubgId.cfg", "MCGnubgIdT.cfg"), workers=3, min_states=1000, timeout=850)

    def bind():
        jobs = ctx.replay
        if not jobs:
            jobs = [dict(op="gdec", pid=p, mid=m, prev=board(rng)) for p, m in PAIRS]
            for i in range(ctx.pick(1800, 25000)):
                jobs.append(dict(op="gid", board=encodable(rng), prev=board(rng), frozen=rng.random() < .5))
            for i in range(ctx.pick(700, 8000)):
                jobs.append(dict(op="gdec", pid=pid_of(vgen.position(rng)), mid=random_mid(rng), prev=board(rng)))
            for i in range(ctx.pick(40, 400)):
                ps = [vgen.position(rng) for _ in range(6)]
                ps += [[p[1], p[0]] for p in ps[:3]] + [ps[0]]
                jobs.append(dict(op="pids", ps=ps))
        recs = ctx.drive("enc", jobs, procs=4, stub=True)
        ctx.sample(recs[:1])
        ctx.judge("JudgeGnubgId", recs)
    ctx.run_parallel(model, bind)
