"""Locks created by the library are simulated: they never block the process.

With no scheduler installed (single-threaded histories) waiting for a lock that nobody will
release raises Deadlock at once; with a scheduler the waiting thread is parked and the
scheduler decides who continues (see sched.py)."""
import sys, threading, _thread

from . import core

_real_lock = _thread.allocate_lock
_real_rlock = threading.RLock
SCHED = None           # installed by sched.Scheduler
CREATED = []


class Deadlock(BaseException):
    """every thread waits for a lock that is never released"""


class SimLock:
    reentrant = False

    def __init__(self):
        self.owner = None; self.count = 0
        CREATED.append(self)

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if SCHED is not None and SCHED.mine(me):
            SCHED.point("lock")
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            if SCHED is None or not SCHED.mine(me):
                if timeout is not None and timeout >= 0:
                    return False
                raise Deadlock("waiting for a lock that is never released")
            if not SCHED.wait_lock(self, timeout):
                return False
        self.owner = me; self.count += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count <= 0:
            self.owner = None; self.count = 0
            if SCHED is not None:
                SCHED.released(self)

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.owner = None; self.count = 0

    # Condition protocol
    def _is_owned(self):
        return self.owner == _thread.get_ident() if self.reentrant else self.owner is not None

    def __reduce__(self):
        raise TypeError("cannot pickle '%s' object" % ("_thread.RLock" if self.reentrant else "_thread.lock"))


class SimRLock(SimLock):
    reentrant = True

    def release(self):
        if self.owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        super().release()

    def _release_save(self):
        s = (self.count, self.owner); self.count = 0; self.owner = None
        if SCHED is not None:
            SCHED.released(self)
        return s

    def _acquire_restore(self, s):
        self.acquire(); self.count, self.owner = s


def _from_library():
    f = sys._getframe(2)
    for _ in range(8):
        if f is None:
            return False
        fn = f.f_code.co_filename
        if fn.startswith(core.SRC):
            return True
        if not fn.endswith(("threading.py", "queue.py", "functools.py")) and fn != "<string>":
            return False
        f = f.f_back
    return False


def Lock():
    return SimLock() if _from_library() else _real_lock()


def RLock():
    return SimRLock() if _from_library() else _real_rlock()


def install():
    threading.Lock = Lock
    threading.RLock = RLock
    threading._allocate_lock = Lock
    _thread.allocate_lock = Lock
