# Driver for the package that reads and writes boards in other notations.
import os
import sys
import shutil
import struct
import tempfile
from drv_model import editor, fields, plain, tup, unpm
from bglib.model import *


def err():
    t, v = sys.exc_info()[:2]
    return "%s: %s" % (getattr(t, "__name__", str(t)), v)


# ---------------------------------------------------------------- E01
def fibs_job(job):
    from bglib.encoding import FIBS
    out = []
    for prev in job["prev"]:
        b = editor(**prev)
        e, got = "", {}
        try:
            FIBS.decode(b, str(job["text"]))
            got = fields(b)
        except:
            e = err()
        out.append(dict(f=job["f"], text=job["text"], got=got or dict(position=0), err=e))
    return {"trace": out}


# ---------------------------------------------------------------- E02
def db_job(job):
    from bglib.encoding import dbbyte
    out = []
    enc = []
    for f in job["boards"]:
        b = editor(**f).freeze()
        d = dbbyte.DatabaseBytesExpression(b)
        frozen = []
        for name in ("position", "score", "bogus"):
            for how in ("set", "del"):
                try:
                    if how == "set":
                        setattr(d, name, 1)
                    else:
                        delattr(d, name)
                    frozen.append(how + " " + name)
                except (TypeError, AttributeError):
                    pass
        by = d.position
        back = d.tomodel()
        dec = dbbyte.decode_position(by)
        ren = dbbyte.encode_position(dec)
        signed = [dbbyte.signedord(c) for c in by]
        rest = dict([(k, plain(getattr(d, k))) for k in f if k != "position"])
        want = dict([(k, f[k]) for k in f if k != "position"])
        enc.append(by)
        out.append(dict(op="db", board=f, size=len(by), signed=signed, back=fields(back), equal=bool(back == b), dec=plain(dec),
                        reenc=bool(ren == by), rest=rest == want, mutated=frozen, same=bool(b == editor(**f).freeze())))
    n = len(enc)
    dist = [[plain(dbbyte.distance(x, y)) for y in enc] for x in enc]
    eq = [[bool(x == y) for y in enc] for x in enc]
    out.append(dict(op="dist", codes=[[dbbyte.signedord(c) for c in x] for x in enc], boards=job["boards"], dist=dist, eq=eq))
    return {"trace": out}


# ---------------------------------------------------------------- E03
def xgid_job(job):
    from bglib.encoding import xgid
    import bglib.encoding
    out = []
    for prev in job["prev"]:
        b = editor(**prev)
        got, e, kind = dict(position=0), "", ""
        try:
            xgid.decode(b, str(job["text"]))
            got = fields(b)
        except bglib.encoding.EncodingError:
            kind = "documented"
            e = err()
        except:
            kind = "other"
            e = err()
        out.append(dict(f=job["f"], text=job["text"], got=got, kind=kind, err=e))
    return {"trace": out}


# ---------------------------------------------------------------- E04
B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def idx(s):
    return [B64.find(c) for c in s]


def gnubg_decode(pid, mid, prev):
    from bglib.encoding import gnubgid
    import bglib.encoding
    b = editor(**prev)
    try:
        gnubgid.decode(b, pid, mid)
        return fields(b), ""
    except bglib.encoding.InconsistentData:
        return dict(position=0), "inconsistent"
    except:
        return dict(position=0), err()


def gid_job(job):
    from bglib.encoding import gnubgid
    f = job["board"]
    b = editor(**f)
    if job.get("frozen"):
        b = b.freeze()
    try:
        pid, mid = gnubgid.encode(b)
    except:
        return dict(op="encode", board=f, pid=[], mid=[], back=dict(position=0), err="encode " + err(), pos=[], same=True)
    back, e = gnubg_decode(pid, mid, job["prev"])
    try:
        pos = plain(gnubgid.decode_position(pid))
        again = gnubgid.encode_position(tup(pos)) == pid
    except:
        pos, again = [], False
    return dict(op="encode", board=f, pid=idx(pid), mid=idx(mid), back=back, err=e, pos=pos, again=bool(again),
                same=bool(fields(b) == fields(editor(**f))), text=[pid, mid])


def gdec_job(job):
    """ids made by the specification's layout (as text) decoded"""
    back, e = gnubg_decode(str(job["pid"]), str(job["mid"]), job["prev"])
    return dict(op="decode", pid=idx(job["pid"]), mid=idx(job["mid"]), back=back, err=e, text=[job["pid"], job["mid"]])


def pids_job(job):
    from bglib.encoding import gnubgid
    ids = [gnubgid.encode_position(tup(p)) for p in job["ps"]]
    return dict(op="pids", ps=job["ps"], eq=[[bool(x == y) for y in ids] for x in ids])


# ---------------------------------------------------------------- E07
def nori_job(job):
    from bglib.encoding.bearoff import nori
    out, back = [], []
    if job["op"] == "t2k":
        for t in job["ts"]:
            try:
                k = nori.oneside_upto6_t2k(tup(t))
                out.append(plain(k))
            except:
                out.append(-1)
                back.append([])
                continue
            try:
                back.append(plain(nori.oneside_upto6_k2t(k)))
            except:
                back.append([])
        return dict(op="t2k", ts=job["ts"], got=out, back=back)
    for n in job["ns"]:
        try:
            out.append(plain(nori.oneside_upto6_k2t(n)))
        except:
            out.append([])
    return dict(op="k2t", ns=job["ns"], got=out)


t2k_job = k2t_job = nori_job


# ---------------------------------------------------------------- E05
def index_job(job):
    from bglib.encoding.bearoff import gnubgdb
    out = []
    for t in job["ts"]:
        try:
            out.append(plain(gnubgdb.oneside_index(tup(t), job["p"], job["c"])))
        except:
            out.append(-1)
    return dict(op="index", p=job["p"], c=job["c"], ts=job["ts"], got=out)


def param_job(job):
    from bglib.encoding.bearoff import gnubgdb
    try:
        got = plain(gnubgdb.bearoff_param(tup(job["a"]), tup(job["b"])))
    except:
        got = [-1, -1]
    return dict(op="param", a=job["a"], b=job["b"], got=got)


def read_job(job):
    from bglib.encoding import bearoff
    from bglib.encoding.bearoff import trice, nori, gnubgdb
    d = tempfile.mkdtemp()
    try:
        path = os.path.join(d, "db")
        for i, v in enumerate(job.get("vals", [])):      # records of four floats in the platform's own byte order
            job["data"][16 * i:16 * i + 16] = [ord(c) for c in struct.pack("ffff", *[x / 8.0 for x in v])]
        f = open(path, "wb")
        f.write("".join([chr(x) for x in job["data"]]))
        f.close()
        out = []
        if job["dl"] == 16:
            mod = (trice, trice, nori, gnubgdb)[len(job["data"]) // 16 % 4]
            db = mod.DBRreader()
        else:
            db = type("DB", (bearoff.DBReader,), dict(datalen=job["dl"]))()
        db.open(path)
        for n in job["reads"]:
            vals = []
            try:
                got = [ord(c) for c in db.rawread(n)]
                e = ""
            except:
                got, e = [], sys.exc_info()[0].__name__
            if job["dl"] == 16 and not e:
                try:
                    if mod is gnubgdb:      # reads whole records only
                        db = trice.DBRreader()
                        db.open(path)
                    chunk = db.dump(n)
                    eq = mod is nori and trice.human_readable_eq(chunk) or db.human_readable(n + 1)
                    vals = [int(v * 8) for v in chunk] + [int(v * 8) for v in eq]
                except:
                    vals = [0]
            out.append(dict(n=n, got=got, err=e, vals=vals))
        db.close()
        return dict(op="read", data=job["data"], dl=job["dl"], out=out, vals=job.get("vals", []))
    finally:
        shutil.rmtree(d)


# ---------------------------------------------------------------- E06
def msg_job(job):
    from bglib.encoding import FIBS
    s = str(job["text"])
    k = job["kind"]
    e, nums, name, pms = "", [], [], []
    try:
        if k == "dice":
            nums = plain(FIBS.get_dice(s))
        elif k == "name":
            r = FIBS.get_name(s)
            name = list(r) if r is not None else ["<none>"]
        elif k == "taker":
            r = FIBS.get_taker_name(s)
            name = list(r) if r is not None else ["<none>"]
        elif k == "match":
            nums = plain(FIBS.get_match_scores(s))
        elif k == "score":
            nums = [plain(FIBS.get_score(s))]
        elif k == "resign":
            nums = [plain(FIBS.get_resign_score(s))]
        elif k == "moves":
            pms = [unpm(p) for p in FIBS.get_move(s, job["who"])]
    except:
        e = err()
    return dict(kind=k, who=job.get("who", 0), chars=list(s), nums=nums, name=name, pms=pms, err=e, text=s)


def handle(job):
    return globals()[job["op"] + "_job"](job)
