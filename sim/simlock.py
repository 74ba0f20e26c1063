"""Locks created by the library's own code become simulated locks, so that a
lock added to the library cannot block the one thread that holds the baton.

threading.Lock / RLock are replaced by factories which look at their caller:
code of the svgio package gets a SimLock, everybody else the real thing."""
import sys, threading, _thread

_real_lock = _thread.allocate_lock
_real_threading_lock = threading.Lock
_real_rlock = threading.RLock

# set by the scheduler while a simulation with threads is running
current_scheduler = None


class SimLock:
    def __init__(self, reentrant):
        self._reentrant = reentrant
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while self._owner is not None and not (self._reentrant and self._owner == me):
            if not blocking:
                return False
            s = current_scheduler
            if s is None:
                raise RuntimeError("simulated deadlock: lock held, no scheduler running")
            s.blocked_yield()
        self._owner = me
        self._count += 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def _from_svgio():
    f = sys._getframe(2)
    return f.f_globals.get("__name__", "").split(".")[0] == "svgio"


def install():
    def Lock():
        return SimLock(False) if _from_svgio() else _real_threading_lock()

    def RLock():
        return SimLock(True) if _from_svgio() else _real_rlock()

    threading.Lock = Lock
    threading.RLock = RLock
