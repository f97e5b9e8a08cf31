# Drives bglib.model: boards, editors, partial moves, move factories.
import copy
import sys
from bglib.model import *
from bglib.model import constants as C
from bglib.model.board import AbstractBoard

FIELDS = sorted(AbstractBoard.defaults.keys())


def tup(x):
    if isinstance(x, list):
        return tuple([tup(y) for y in x])
    if isinstance(x, unicode):
        return str(x)
    return x


def plain(x):
    if isinstance(x, (tuple, list)):
        return [plain(y) for y in x]
    if isinstance(x, bool) or isinstance(x, (int, str)):
        return x
    if isinstance(x, long):
        return int(x)
    return "<%s>" % (x,)


def editor(**kw):
    e = BoardEditor()
    for k, v in kw.items():
        setattr(e, k, tup(v))
    return e


def fields(b):
    return dict([(k, plain(getattr(b, k))) for k in FIELDS])


def mkpm(d):
    return PartialMove(d["die"], d["src"], d["dest"], d["hit"])


def unpm(pm):
    return dict(die=plain(pm.die), src=plain(pm.src), dest=plain(pm.dest), hit=bool(pm.is_hitting))


def positions(p):
    return plain(p)


def opp(w):
    return 1 - w


def turn_board(job, **kw):
    d = dict(position=job["pos"], on_action=job["who"], on_inner_action=job["who"], rolled=job["rolled"], game_state=C.ON_GOING)
    d.update(job.get("extra", {}))
    d.update(kw)
    return editor(**d)


# ---------------------------------------------------------------- B02
def apply_job(job):
    pm = mkpm(job["pm"])
    inv = PartialMove(pm.die, pm.dest, pm.src, pm.is_hitting)
    b = turn_board(job)
    before = fields(b)
    b.make_partial_move(pm)
    after = positions(b.position)
    rest = fields(b)
    rest["position"] = before["position"]
    b.make_partial_move(inv)
    back = fields(b) == before
    f = turn_board(job)
    f.flip()
    flipped = positions(f.position)
    f.make_partial_move(pm)
    fa = positions(f.position)
    f.flip()
    fb = positions(f.position)
    g = turn_board(job)
    g.flip()
    g.flip()
    m = Move()
    for d in job["mv"]:
        m.append(mkpm(d))
    h = turn_board(job)
    h.make(m)
    fr = BoardEditor(turn_board(job).freeze())
    fr.make_partial_move(pm)
    return dict(op="apply", who=job["who"], pos=job["pos"], pm=job["pm"], mv=job["mv"], after=after, rest=rest == before, back=back,
                flipped=flipped, flipafter=fa, flipback=fb, flip2=fields(g) == before, made=positions(h.position), frozen=positions(fr.position))


def flip_job(job):
    b = editor(**job["f"])
    x = fields(b)
    b.flip()
    y = fields(b)
    b.flip()
    return dict(op="flip", a=x, b=y, c=fields(b))


# ---------------------------------------------------------------- B03
def truth(f, *a):
    return bool(f(*a))


def pred_job(job):
    b = turn_board(job)
    if job.get("frozen"):
        b = b.freeze()
    mine = job["pos"][job["who"]]
    src = []
    for d in range(1, 7):
        s = b.find_src_of_bearoff_with(d)
        src.append(-2 if s is None else plain(s))
    return dict(op="pred", who=job["who"], pos=job["pos"],
                movable=[truth(b.has_chequer_to_move, i) for i in range(25)],
                open=[truth(b.is_open_to_land, i) for i in range(-1, 24)],
                hit=[truth(b.is_hitting_to_land, i) for i in range(-1, 24)],
                offok=[[truth(b.is_ok_to_bearoff_from, i, d) for d in range(1, 7)] if mine[i] else [False] * 6 for i in range(24)],
                offsrc=src)


# ---------------------------------------------------------------- turns: B04, B05, B06
def av_list(av):
    return [plain(av[d]) for d in range(1, 7)]


def mf_state(mf):
    f = fields(mf.board)
    pos = f.pop("position")
    return dict(pos=pos, mv=[unpm(p) for p in mf.move], av=av_list(mf.available), n=len(mf.available)), f


def refused(f, *a):
    try:
        f(*a)
    except:          # a bare raise surfaces as a Java exception under Jython
        return True
    return False


def ledger_job(job):
    b = turn_board(job)
    mf = MoveFactory(b)
    out = []
    s, other = mf_state(mf)
    out.append(dict(op="begin", who=job["who"], pos=job["pos"], rolled=job["rolled"], obs=s, ok=True, others=True, back=True))
    for ev in job["events"]:
        if ev["op"] == "step":
            r = refused(mf.append, mkpm(ev["pm"]))
        elif ev["op"] == "add":
            m = Move()
            for d in ev["pms"]:
                m.append(mkpm(d))
            r = refused(mf.add, m)
        elif ev["op"] == "nodie":
            r = refused(mf.append, mkpm(ev["pm"]))
        elif ev["op"] == "consume":
            av = AvailableToPlay(copy_src=mf.available)
            r = refused(av.consume, ev["die"])
            s2 = av_list(av)
            r = r and s2 == av_list(mf.available)
        elif ev["op"] == "clone":       # a factory continued from the record and the remaining dice
            b2 = BoardEditor(mf.board)
            mf = MoveFactory(b2, mf.move, mf.available)
            r = False
        s, o2 = mf_state(mf)
        rec = dict(ev)
        rec.update(dict(obs=s, ok=not r, others=o2 == other, back=True))
        out.append(rec)
    return {"trace": out}


def record_job(job):
    m, first, second = Move(), Move(), Move()
    pms = [mkpm(d) for d in job["pms"]]
    states = []
    for i, p in enumerate(pms):
        m.append(p)
        states.append([unpm(x) for x in m])
    for p in pms[:job["cut"]]:
        first.append(p)
    copy = Move(src=first)
    copy.add(Move(src=copy))            # its own steps again
    for p in pms[job["cut"]:]:
        second.append(p)
    before = [unpm(x) for x in second]
    whole = Move(src=first)
    whole.add(second)
    rec = dict(op="record", pms=job["pms"], cut=job["cut"], states=states, inv=[[bool(a.are_invertible_element(b)) for b in pms] for a in pms],
               undo=[bool(p.is_undo()) for p in pms], dance=[bool(p.is_dance()) for p in pms], n=len(m), found=[], nothing=bool(m),
               first=[unpm(x) for x in first], second=before, after=[unpm(x) for x in second], whole=[unpm(x) for x in whole], twice=[unpm(x) for x in copy])
    for t in range(-1, 25):
        rec["found"].append([unpm(x) for x in m.find(t)])
    return {"trace": [rec]}


def result(r):
    if isinstance(r, PartialMove):
        return dict(k="pm", pms=[unpm(r)])
    if isinstance(r, Move) or isinstance(r, list):
        return dict(k="mv", pms=[unpm(p) for p in r])
    if not r:
        return dict(k="no", pms=[])
    return dict(k="other", pms=[], what=repr(r))


def query_job(job):
    b = turn_board(job)
    mf = MoveFactory(b)
    for d in job["played"]:
        mf.append(mkpm(d))
    st0 = mf_state(mf)
    out = []
    for q in job["queries"]:
        kw = {}
        args = None
        if q["q"] in ("src", "dest") and q.get("av"):
            args = AvailableToPlay(copy_src=mf.available)
            kw["available"] = args
        try:
            if q["q"] == "src":
                r = mf.guess_your_single_pm_from_source(q["a"], **kw)
            elif q["q"] == "dest":
                r = mf.guess_your_single_pm_from_dest(q["b"], **kw)
            elif q["q"] == "multi":
                r = mf.guess_your_multiple_pms(q["a"], q["b"])
            elif q["q"] == "undo":
                r = mf.guess_your_multiple_partial_undoes(q["a"], q["b"])
            elif q["q"] == "point":
                r = mf.guess_your_making_point(q["b"])
            res = result(r)
        except:
            res = dict(k="raise", pms=[], what=repr(sys.exc_info()[1]))
        same = mf_state(mf) == st0 and mf.board is b and (args is None or av_list(args) == av_list(mf.available))
        if not same:        # start the next query from a clean factory
            b = turn_board(job)
            mf = MoveFactory(b)
            for d in job["played"]:
                mf.append(mkpm(d))
        out.append(dict(q=q["q"], a=q.get("a", 0), b=q.get("b", 0), r=res, same=same))
    return dict(op="query", who=job["who"], pos=job["pos"], rolled=job["rolled"], played=job["played"], out=out)


def pickup_job(job):
    b = turn_board(job)
    mf = MoveFactory(b)
    for d in job["played"]:
        mf.append(mkpm(d))
    s0 = mf_state(mf)
    try:
        r = mf.is_leagal_to_pickup_dice()
        legal = "yes" if r else "no"
    except:
        legal = "raise " + repr(sys.exc_info()[1])
    same = mf_state(mf) == s0
    mf.board = b2 = BoardEditor(mf.board)
    ref = refused(mf.pickupdice)
    return dict(op="pickup", who=job["who"], pos=job["pos"], rolled=job["rolled"], played=job["played"], now=s0[0]["pos"],
                legal=legal, same=same, refused=ref, after=fields(b2), before=fields(b))


# ---------------------------------------------------------------- B01
def attempt(f, *a):
    try:
        r = f(*a)
    except:
        return "raise"
    return "yes" if r else "no"


PRED = ["roll", "move", "double", "redouble", "resign"]


def preds(b):
    r = {}
    for w in (0, 1):
        r["roll%d" % w] = attempt(b.is_leagal_to_roll, w)
        r["move%d" % w] = attempt(b.is_leagal_to_move, w)
        r["double%d" % w] = attempt(b.is_leagal_to_double, w)
        r["redouble%d" % w] = attempt(b.is_leagal_to_redouble, w)
        r["take%d" % w] = attempt(b.is_cube_take_or_pass, w)
        r["resign%d" % w] = attempt(b.is_leagal_to_resign, w)
        r["accept%d" % w] = attempt(b.is_to_accept_resign, w)
    r["rolled"] = attempt(b.has_rolled)
    r["doubles"] = attempt(b.is_doubles) if tuple(b.rolled) != (0, 0) else "unasked"
    return r


def do(b, ev):
    """returns True when the action was refused"""
    op, w = ev["op"], ev.get("w", 0)
    if op == "roll":
        if not b.is_leagal_to_roll(w):
            return True
        b.rolled = tuple(ev["dice"])
        return False
    if op == "double":
        return refused(b.double, w)
    if op == "take":
        return refused(b.take, w)
    if op == "drop":
        return refused(b.drop, w)
    if op == "offer":
        return refused(b.offer_resign, w, ev["n"])
    if op == "accept":
        return refused(b.accept_resign, w)
    if op == "reject":
        return refused(b.reject_resign, w)
    if op == "pickup":
        return refused(b.pickupdice)
    raise ValueError(op)


def protocol_job(job):
    b = editor(**job["init"])
    out = [dict(op="begin", w=0, n=0, dice=[0, 0], f=fields(b), p=preds(b.freeze()), refused=False)]
    for ev in job["events"]:
        r = do(b, ev)
        out.append(dict(op=ev["op"], w=ev.get("w", 0), n=ev.get("n", 0), dice=ev.get("dice", [0, 0]), f=fields(b), p=preds(b), refused=r))
        if r and job.get("stop"):
            break
    return {"trace": out}


# ---------------------------------------------------------------- B07
DEFAULT = dict(position=C.INITIAL_POSITION, cube_in_logarithm=0, cube_owner=C.CENTER, on_action=C.YOU, crawford=False, game_state=C.NOT_STARTED,
               on_inner_action=C.YOU, doubled=False, resign_offer=C.RESIGN_NONE, rolled=(0, 0), match_length=0, score=(0, 0))
DEFAULT = plain_default = dict([(k, plain(v)) for k, v in DEFAULT.items()])


def is_true(x):
    return x is True


def acts(e, n):
    w = e.on_action
    if n == 0:
        e.flip()
    elif n == 1:
        e.make_partial_move(PartialMove(1, 5, 4, False))
    elif n == 2:
        e.pickupdice()
    else:
        e.offer_resign(w, 2)


def values_job(job):
    objs, out = [], []
    for n, ev in enumerate(job["events"]):
        op, i = ev["op"], ev["i"] - 1
        kw = dict([(str(k), tup(v)) for k, v in ev["kw"].items()])
        ref, new = False, None
        try:
            if op == "board":
                new = Board(**kw)
            elif op == "editor":
                new = BoardEditor(**kw)
            elif op == "from":
                new = BoardEditor(objs[i], **kw)
            elif op == "freeze":
                new = objs[i].freeze()
            elif op == "copy":
                new = copy.copy(objs[i])
            elif op == "deepcopy":
                new = copy.deepcopy(objs[i])
            elif op == "set":
                for k, v in kw.items():
                    setattr(objs[i], k, v)
            elif op == "del":
                for k in kw:
                    delattr(objs[i], k)
            elif op == "act":
                try:
                    acts(objs[i], ev["v"])
                except AssertionError:
                    pass
            elif op == "ask":
                preds(objs[i])
                repr(objs[i])
        except:
            ref = True
        if op in ("board", "editor", "from", "freeze", "copy", "deepcopy"):
            if new is None:
                return {"trace": out + [dict(first=n == 0, op=op, i=i + 1, kw=ev["kw"] or dict(none=0), dflt=DEFAULT, refused=True, vals=[], kinds=[], eq=[], ne=[], key=[])]}
            objs.append(new)
        kinds = [isinstance(o, Board) and "board" or "editor" for o in objs]

        def rel(f):
            return [[kinds[a] == kinds[b] == "board" and bool(f(x, y)) for b, y in enumerate(objs)] for a, x in enumerate(objs)]
        out.append(dict(first=n == 0, op=op, i=i + 1, kw=ev["kw"] or dict(none=0), dflt=DEFAULT, refused=ref, vals=[fields(o) for o in objs], kinds=kinds,
                        eq=rel(lambda x, y: x == y), ne=rel(lambda x, y: x != y), key=rel(lambda x, y: {x: 1}.get(y, 0) == 1)))
    return {"trace": out}


# ---------------------------------------------------------------- B08
def tried(f, *a):
    """[value] or the name of the exception"""
    try:
        r = f(*a)
    except:
        t = sys.exc_info()[0]
        return dict(k="raise", n=0, s=getattr(t, "__name__", str(t)))
    if isinstance(r, (str, unicode)):
        return dict(k="str", n=0, s=str(r))
    return dict(k="int", n=plain(r), s="")


def notation_job(job):
    from bglib.model import util
    out = []
    for n in job["ns"]:
        out.append(dict(op="index", n=n, move=tried(util.move_ntop, n), you=tried(util.position_ntop, n, 0), him=tried(util.position_ntop, n, 1),
                        flip=tried(util.flip_point, n)))
    for s in job["names"]:
        t = str(s["s"])
        out.append(dict(op="name", int=s["int"], val=s["val"], s=t, move=tried(util.move_pton, t), you=tried(util.position_pton, t, 0), him=tried(util.position_pton, t, 1)))
    for w in job["players"]:
        out.append(dict(op="opp", w=w, got=tried(util.get_opp, w)))
    for d in job["pms"]:
        pm = mkpm(d)
        out.append(dict(op="pm", pm=d, s=str(pm)))
    for mv in job["mvs"]:
        m = Move()
        for d in mv:
            m.append(mkpm(d))
        out.append(dict(op="mv", pms=[unpm(p) for p in m], s=str(m), n=len(m)))
    return {"trace": out}


def handle(job):
    return globals()[job["op"] + "_job"](job)
