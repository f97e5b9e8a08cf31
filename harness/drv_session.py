# Runs scripted histories of a Session against a loopback server owned by this driver.
import socket, threading, time, json
from bglib.protocol.session import Session, Subscriber

PATIENCE = [20]


class Log(object):
    def __init__(self):
        self.lock = threading.Lock()
        self.cond = threading.Condition(self.lock)
        self.ev = []
        self.nid = 0

    def add(self, **kw):
        self.lock.acquire()
        try:
            self.ev.append(kw)
            self.cond.notifyAll()
        finally:
            self.lock.release()

    def newid(self):
        self.lock.acquire()
        try:
            self.nid += 1
            return self.nid
        finally:
            self.lock.release()

    def wait(self, pred, timeout):
        end = time.time() + timeout
        self.lock.acquire()
        try:
            while not pred(self.ev):
                left = end - time.time()
                if left <= 0:
                    return False
                self.cond.wait(left)
            return True
        finally:
            self.lock.release()


class Shared(Subscriber):
    """one class for several subscribers"""


class World(object):
    def __init__(self, job):
        self.job = job
        self.log = Log()
        self.busy, self.regd = set(), set()
        self.session = Session()
        self.subs = {}
        for s in job["subs"]:
            self.subs[s["name"]] = self.make(s)
        self.threads = []

    def make(self, spec):
        world, name = self, spec["name"]

        class Sub(Subscriber):
            pass
        sub = Shared() if self.job.get("shared") else Sub()
        for c in spec["cookies"]:
            def handler(got, c=c):
                world.handle(name, c, got)
            setattr(sub, c, handler)
            if c == "EOFError":
                def eof(got):
                    world.handle(name, "EOFError", got)
                setattr(sub, "socket_error", eof)
        return sub

    def handle(self, name, cookie, got):
        text = "<eof>" if cookie == "EOFError" else str(got)
        self.log.add(ev="deliver", s=name, cookie=cookie, text=text)
        for h in self.job["handlers"]:
            if h["s"] == name and h["text"] == text:
                for a in h["acts"]:
                    if a.get("thread"):
                        t = threading.Thread(target=self.call, args=(a,))
                        t.setDaemon(True)
                        t.start()
                        self.threads.append(t)
                        t.join(.03)
                    else:
                        self.call(a)
        self.log.add(ev="return", s=name)

    def call(self, a):
        # keep to meaningful calls: register what is not registered, unregister what is, one call on a subscriber at a time
        self.log.lock.acquire()
        try:
            for n in a.get("args", []):
                if n in self.busy or (n in self.regd) == (a["op"] == "reg"):
                    return
            for n in a.get("args", []):
                self.busy.add(n)
        finally:
            self.log.lock.release()
        try:
            self.docall(a)
        finally:
            self.log.lock.acquire()
            for n in a.get("args", []):
                self.busy.discard(n)
                (self.regd.add if a["op"] == "reg" else self.regd.discard)(n)
            self.log.lock.release()

    def docall(self, a):
        i = self.log.newid()
        self.log.add(ev="call", id=i, op=a["op"], args=a.get("args", []))
        objs = [self.subs[n] for n in a.get("args", [])]
        try:
            if a["op"] == "reg":
                self.session.register(*objs)
            elif a["op"] == "unreg":
                self.session.unregister(*objs)
            else:
                self.session.close()
        except Exception, e:
            self.log.add(ev="raised", id=i, what=repr(e))
            return
        self.log.add(ev="ret", id=i)

    def gate(self):
        """schedule control: other threads act after the listener has read a line and before it dispatches it"""
        real = self.session.expect
        gates = dict((str(g["text"]), g["acts"]) for g in self.job.get("gates", []))

        def expect(*args, **kw):
            res = real(*args, **kw)
            for text in list(gates):
                if res[0] >= 0 and str(res[2]).rstrip("\r\n") == text:
                    for a in gates.pop(text):
                        t = threading.Thread(target=self.call, args=(a,))
                        t.setDaemon(True)
                        t.start()
                        t.join(2)
            return res
        if gates:
            self.session.expect = expect

    def run(self):
        srv = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        srv.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        srv.bind(("127.0.0.1", 0))
        srv.listen(1)
        conn = None
        closed = False
        try:
            for st in self.job["before"]:
                self.call(st)
            self.gate()
            self.session.open("127.0.0.1", srv.getsockname()[1])
            conn, _ = srv.accept()
            for st in self.job["script"]:
                op = st["op"]
                if op == "send":
                    self.log.add(ev="send", cookie=st["cookie"], text=st["text"])
                    data = str(st["text"]) if st["text"] == "login: " else str(st["text"]) + "\r\n"
                    try:
                        if st.get("split"):
                            k = len(data) // 2
                            conn.sendall(data[:k]); time.sleep(st["split"] if st["split"] is not True else .01); conn.sendall(data[k:])
                        else:
                            conn.sendall(data)
                    except Exception:
                        if not any(e.get('op') == 'close' for e in self.log.ev):
                            raise
                    if st.get("wait"):
                        self.settle(st["text"])
                elif op == "eof":
                    self.log.add(ev="send", cookie="EOFError", text="<eof>")
                    conn.close()
                    self.settle("<eof>")
                elif op == "idle":
                    for t in self.threads:
                        t.join(2)
                    self.log.add(ev="idle")
                elif op == "active":
                    self.log.add(ev="active", value=bool(self.session.is_active()))
                elif op == "pause":
                    time.sleep(.03)
                elif op == "terminated":
                    self.session.terminated.wait(PATIENCE[0])
                    if not self.session.terminated.isSet():
                        PATIENCE[0] = .5
                    self.log.add(ev="terminated", set=bool(self.session.terminated.isSet()))
                else:
                    if op == "close":
                        closed = True
                    if st.get("thread"):
                        t = threading.Thread(target=self.call, args=(st,))
                        t.setDaemon(True)
                        t.start()
                        self.threads.append(t)
                    else:
                        self.call(st)
            for t in self.threads:
                t.join(2)
            if self.job.get("linger"):
                time.sleep(.05)
        finally:
            try:
                if self.session.is_active():
                    self.session.close()
            except Exception:
                pass
            if conn is not None:
                conn.close()
            srv.close()
        self.log.lock.acquire()
        try:
            return list(self.log.ev)
        finally:
            self.log.lock.release()

    def settle(self, text):
        """wait until the monitor (subscriber 1, first in order) has been handed `text` and returned, and the dispatch is over"""
        def done(ev):
            n = [sum(1 for e in ev if e["ev"] == k and e["text"] == text and e.get("s", 1) == 1) for k in ("send", "deliver")]
            return n[1] >= n[0]
        if not self.log.wait(done, PATIENCE[0]):
            PATIENCE[0] = .5          # already a failure: do not wait that long again
        self.session.is_active()
        time.sleep(.002)


def handle(job):
    return dict(subs=job["subs"], trace=World(job).run(), job=job)
