"""E06: fields of FIBS messages.  MCFibsText shows the specification reads back what a message states; messages of the documented
shapes are given to the real readers and TLC compares every field."""
import vgen
LEVEL = "model_checking"
ASSUMPTIONS = ["messages have the shapes FIBS documents (a name made of letters, '_', '<' or '>'; numbers only where the message states them)"]
NAMES = ["You", "gBOTworldclass", "foo", "foo_bar", "X", "a", "_x", "bob<>", "moves", "accepts", "MonteCarlo", "bar", "off"]


def jobs_(ctx):
    rng = ctx.rng
    out = []

    def add(kind, text, who=0):
        out.append(dict(op="msg", kind=kind, text=text, who=who))
    for n in NAMES:
        for a in range(1, 7):
            for b in range(1, 7):
                s = rng.choice(["You roll %d and %d.", "You roll %d and %d", n + " rolls %d and %d.", n + " rolls %d and %d",
                                "** " + n + " rolls: %d %d", n + " rolled %d, you rolled %d"]) % (a, b)
                add("dice", s)
    for _ in range(ctx.pick(900, 12000)):
        n = rng.choice(NAMES) if rng.random() < .7 else "".join(rng.choice("abcXYZ_<>kmq") for _ in range(rng.randint(1, 12) if rng.random() < .9 else rng.randint(13, 60)))
        tail = rng.choice([" rolls 3 and 5.", " doubles.", " wants to resign.", " accepts the double.", " makes the first move.", "", ": hi", "'s turn", ".", " accepts",
                           " accepts and wins 2 points.", "1 moves", " moves 8-5 6-5 .", " rejects"])
        add("name", rng.choice(["", "", "", " ", "** ", "3 "]) + n + tail)
        add("taker", rng.choice(["", "", "", " ", "** "]) + n + rng.choice([" accepts the double. The cube shows 2.", " accepts the double.", " accepts", " accepts and wins 1 point.",
                                                                     " rejects the double", " doubles", " accept", "  accepts", " has accepted", " accepts your offer"]))
        ml = rng.choice([1, 3, 5, 11, 25, 101, 9999])
        sc = [rng.randint(0, 120), rng.randint(0, 120)] if rng.random() < .9 else [rng.randint(0, 12000), rng.randint(0, 12000)]
        add("match", rng.choice(["%s: %%d, %s: %%d in a %%d point match" % (n, rng.choice(NAMES)), "score is %s %%d : %%d, match to %%d points." % n,
                                 "%d-%d/%d", "** score: %d %d (%d points)"]) % (sc[0], sc[1], ml))
        add("score", rng.choice([n + " wins %d points.", n + " accepts and wins %d point.", "%d", "You win %d points. Great!", n + " gives up. You win %d points."]) % rng.choice([1, 2, 3, 4, 6, 8, 12, 192, 1024, 3072, 98304]))
        add("resign", rng.choice([n + " wants to resign. You will win %d points. Type 'accept' or 'reject'.", n + " wants to resign. You will win %d point.",
                                  "You want to resign. " + n + " will win %d points."]) % rng.choice([1, 2, 3, 4, 6, 8, 12, 192, 1024, 3072, 98304]))
        who = rng.randint(0, 1)
        steps = []
        for _ in range(rng.randint(0, 4)):
            d = rng.randint(1, 6)
            src = rng.choice([24, rng.randint(0, 23), rng.randint(0, 23)])
            dst = max(-1, src - d)
            show = lambda i: "bar" if i == 24 else "off" if i < 0 else str(i + 1 if who == 0 else 24 - i)
            steps.append(show(src) + "-" + show(dst) + ("*" if dst >= 0 and rng.random() < .3 else ""))
        add("moves", " ".join([n, "moves"] + steps + ["."]), who)
    return out


def run(ctx):
    def model():
        ctx.mc("MCFibsText", workers=1, min_states=500)

    def bind():
        jobs = ctx.replay or jobs_(ctx)
        recs = ctx.drive("enc", jobs, procs=3)
        ctx.sample(recs[:2])
        ctx.judge("JudgeFibsText", recs)
    ctx.run_parallel(model, bind)
