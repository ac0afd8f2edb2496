"""A seeded scheduler for real Python threads: exactly one runs at a time, and at every statement
of the library (and, optionally, at every tensor operation, where the interpreter lock is really
released) the scheduler decides who goes on."""
import random, sys, threading, _thread, time

from . import core, locks


class Abort(BaseException):
    """the execution is being torn down after a deadlock"""


class T:
    def __init__(self, tid):
        self.tid = tid; self.gate = locks._real_lock(); self.gate.acquire()
        self.state = "ready"; self.lock = None; self.timeout = -1; self.woke = True; self.ident = None
        self.where = ""; self.npoints = 0


class Scheduler:
    def __init__(self, cfg, n):
        self.cfg = cfg
        self.r = random.Random(core.derive("sched", cfg["seed"]))
        self.t = [T(i) for i in range(n)]
        self.by = {}
        self.n = 0; self.log = []; self.sites = []
        self.cur = None; self.main = locks._real_lock(); self.main.acquire()
        self.deadlock = None; self.clock = 0.0; self.lockwaits = 0
        k = cfg["kind"]
        self.p = cfg.get("p", 0.1)
        if k == "pct":
            self.prio = list(range(n)); self.r.shuffle(self.prio)
            self.change = sorted(self.r.randrange(1, max(2, cfg["len"])) for _ in range(cfg["depth"]))
            self.low = -1
        if k == "explicit":
            self.sw = {a: b for a, b in cfg["switches"]}
        self.limit = cfg.get("limit", 400000)

    def mine(self, ident):
        return ident in self.by

    # ---- choice
    def ready(self):
        return [t for t in self.t if t.state == "ready"]

    def choose(self, me, file, forced=False):
        """-> thread to run next (me when no switch)"""
        k = self.cfg["kind"]
        rd = self.ready()
        if not rd:
            return None
        if k == "explicit":
            x = self.sw.get(self.n)
            if x is not None and any(t.tid == x for t in rd):
                return self.t[x]
            return me if not forced and me.state == "ready" else rd[0]
        if k == "pct":
            while self.change and self.n >= self.change[0]:
                self.change.pop(0)
                if me is not None:
                    self.prio[me.tid] = self.low; self.low -= 1
            o = [t for t in rd if t is not me] if forced and len(rd) > 1 else rd
            return max(o, key=lambda t: self.prio[t.tid])
        o = [t for t in rd if t is not me]
        if forced or me is None or me.state != "ready":
            return self.r.choice(o) if o else rd[0]
        p = self.p
        if k == "focus":
            p = 0.5 if file and file.endswith(self.cfg["file"]) else 0.004
        if o and self.r.random() < p:
            return self.r.choice(o)
        return me

    def point(self, kind, file=None, line=0):
        me = self.by.get(_thread.get_ident())
        if me is None or me is not self.cur:
            return
        if self.deadlock:
            raise Abort()
        self.n += 1; me.npoints += 1
        me.where = "%s:%d" % (file, line)
        if self.n > self.limit:
            self.deadlock = "no progress after %d steps (thread %d at %s)" % (self.n, me.tid, me.where)
            raise Abort()
        to = self.choose(me, file, forced=(kind == "sleep"))
        if to is not None and to is not me:
            self.go(me, to)

    def go(self, me, to):
        self.log.append((self.n, to.tid)); self.sites.append((me.tid, me.where, to.tid))
        self.cur = to
        to.gate.release()
        me.gate.acquire()
        if self.deadlock:
            raise Abort()

    # ---- simulated locks
    def wait_lock(self, lock, timeout):
        me = self.by[_thread.get_ident()]
        self.lockwaits += 1
        me.state = "blocked"; me.lock = lock; me.timeout = timeout if timeout is not None and timeout >= 0 else None
        me.woke = True
        self.n += 1
        to = self.choose(me, None, forced=True)
        if to is None:
            late = [t for t in self.t if t.state == "blocked" and t.timeout is not None]
            if late:
                to = min(late, key=lambda t: t.timeout)
                self.clock += to.timeout
                to.state = "ready"; to.woke = False
            else:
                self.fail()
        if to is not me:
            self.go(me, to)
        me.lock = None
        return me.woke

    def fail(self):
        self.deadlock = "deadlock: " + ", ".join("thread %d waits at %s" % (t.tid, t.where) for t in self.t if t.state == "blocked")
        raise Abort()

    def released(self, lock):
        for t in self.t:
            if t.state == "blocked" and t.lock is lock:
                t.state = "ready"

    def sleep(self, s):
        self.clock += s
        self.point("sleep", "sleep", 0)

    # ---- thread life
    def body(self, t, fn):
        t.gate.acquire()
        t.ident = _thread.get_ident(); self.by[t.ident] = t
        src, cut = core.SRC, len(core.SRC)

        def local(frame, event, arg):
            if event == "line":
                self.point("line", frame.f_code.co_filename[cut:], frame.f_lineno)
            return local

        def glob(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(src) else None
        try:
            if not self.deadlock:
                if self.cfg.get("ops"):
                    with op_points(self):
                        sys.settrace(glob)
                        fn()
                else:
                    sys.settrace(glob)
                    fn()
        except Abort:
            pass
        finally:
            sys.settrace(None)
            t.state = "done"
            self.leave(t)

    def leave(self, t):
        rd = self.ready()
        if not rd and any(x.state == "blocked" for x in self.t) and not self.deadlock:
            late = [x for x in self.t if x.state == "blocked" and x.timeout is not None]
            if late:
                x = min(late, key=lambda y: y.timeout); x.state = "ready"; x.woke = False; rd = [x]
            else:
                self.deadlock = "deadlock: " + ", ".join("thread %d waits at %s" % (x.tid, x.where) for x in self.t if x.state == "blocked")
        if self.deadlock:
            rest = [x for x in self.t if x.state != "done"]
            if rest:
                self.cur = rest[0]; rest[0].gate.release()
            else:
                self.main.release()
            return
        if rd:
            self.n += 1
            to = self.choose(None, None, forced=True) or rd[0]
            if to.state != "ready":
                to = rd[0]
            self.log.append((self.n, to.tid))
            self.cur = to; to.gate.release()
        else:
            self.main.release()

    def run(self, fns):
        locks.SCHED = self
        old_sleep = time.sleep
        time.sleep = lambda s: self.sleep(s) if self.mine(_thread.get_ident()) else old_sleep(s)
        try:
            ths = [threading.Thread(target=self.body, args=(t, f), daemon=True) for t, f in zip(self.t, fns)]
            for th in ths:
                th.start()
            first = self.choose(None, None, forced=True)
            self.log.append((0, first.tid))
            self.cur = first
            first.gate.release()
            self.main.acquire()
            for th in ths:
                th.join()
        finally:
            locks.SCHED = None
            time.sleep = old_sleep


def op_points(s):
    from torch.utils._python_dispatch import TorchDispatchMode

    class Mode(TorchDispatchMode):
        def __torch_dispatch__(self, func, types, args=(), kwargs=None):
            out = core.through(func, args, kwargs)
            s.point("op", "aten", 0)
            return out
    return Mode()
