# Drives bglib.record: Snowie match files (the module is hidden by the directory of samples, so it is loaded by path).
import hashlib
import imp
import os
import sys

SRC = os.environ["BGLIB_VERIF_SRC"]
mod = imp.load_source("snowie_under_test", os.path.join(SRC, "bglib", "record", "snowietxt.py"))


class Feed(object):
    def __init__(self, lines):
        self.lines, self.n = lines, 0

    def __iter__(self):
        for x in self.lines:
            self.n += 1
            yield x


def validate_job(job):
    lines = [str(x["t"]) for x in job["lines"]]
    out = dict(job, got=0, err="", digest="", want=hashlib.sha1("".join(lines)).hexdigest())
    v = mod.Validator(job["max"] or None)
    f = Feed(lines)
    try:
        if job["how"] == "validate":
            h = v.validate(f)
        else:
            out["max"] = 0
            for x in f:
                v.feed(x)
            h = v.done()
        out["digest"] = h.hexdigest()
    except:
        e = sys.exc_info()[1]
        out["err"], out["got"] = e.__class__.__name__, f.n
    return out


def chop_job(job):
    lines = [str(x["t"]) for x in job["lines"]]
    out = dict(job, err="", games=[], heads=[])
    try:
        for g in mod.chop("".join(lines)):
            ls = g.splitlines(True)
            out["heads"].append(ls[0])
            body = ls[1:]
            if body and not body[0].strip():
                body = body[1:]
            out["games"].append(body)
    except:
        out["err"] = sys.exc_info()[1].__class__.__name__
    return out


def handle(job):
    return dict(validate=validate_job, chop=chop_job)[job["op"]](job)
