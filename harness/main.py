# Jython entry point: main.py AREA JOBS OUT.  Reads one job per line, writes one record per line.
import sys, os, json, imp, traceback
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))


class Null(object):
    def write(self, s):
        pass

    def flush(self):
        pass

    def isatty(self):
        return False


def coverage(where, root):
    """Lines of the library that run, written beside the result (only for tools/coverage.py)."""
    import threading
    seen = {}

    def local(frame, event, arg):
        if event == "line":
            seen.setdefault(frame.f_code.co_filename, set()).add(frame.f_lineno)
        return local

    def trace(frame, event, arg):
        return frame.f_code.co_filename.startswith(root) and local or None
    sys.settrace(trace)
    threading.settrace(trace)

    def done():
        sys.settrace(None)
        f = open(where, "w")
        f.write(json.dumps(dict([(k, sorted(v)) for k, v in seen.items()])))
        f.close()
    return done


def main():
    area, fin, fout = sys.argv[1:4]
    sys.path.insert(0, HERE)
    real = sys.stdout
    done = lambda: None
    if os.environ.get("VERIF_COV"):
        done = coverage(os.path.join(os.environ["VERIF_COV"], os.path.basename(fout) + ".%d.json" % int(os.getpid())), os.environ["BGLIB_VERIF_SRC"])
    sys.stdout = Null()      # the library prints debugging output
    mod = __import__("drv_" + area)
    out = open(fout, "w")
    for line in open(fin):
        job = json.loads(line)
        try:
            rec = mod.handle(job)
        except:
            rec = {"crash": traceback.format_exc(), "job": job}
        sys.stdout = Null()
        out.write(json.dumps(rec) + "\n")
        out.flush()
    out.close()
    done()
    sys.stdout = real


main()
os._exit(0)
