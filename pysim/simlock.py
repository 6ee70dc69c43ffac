"""Locks of the threading module which park simulated threads instead of blocking
the process.  Imported before anything creates locks."""
import _thread
import threading

SCHED = None          # the running scheduler, if any
_RealLock = _thread.allocate_lock
_RealRLock = _thread.RLock
_sim_threads = set()


def _me():
    s = SCHED
    return s.cur if s is not None and _thread.get_ident() in _sim_threads else None


class CoLock:
    """threading.Lock"""

    def __init__(self):
        self._l = _RealLock()

    def acquire(self, blocking=True, timeout=-1):
        if _me() is None:
            return self._l.acquire(blocking, timeout)
        if self._l.acquire(False):
            return True
        if not blocking or timeout >= 0:
            return False
        SCHED.ctl.count("contended")
        while not self._l.acquire(False):
            SCHED.block(lambda: not self._l.locked())
        return True

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l._at_fork_reinit()


class CoRLock:
    """threading.RLock"""

    def __init__(self):
        self._l = _RealLock()
        self._owner = None
        self._n = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._n += 1
            return True
        if _me() is None:
            ok = self._l.acquire(blocking, timeout)
        else:
            ok = self._l.acquire(False)
            if not ok and blocking and timeout < 0:
                SCHED.ctl.count("contended")
                while not ok:
                    SCHED.block(lambda: not self._l.locked())
                    ok = self._l.acquire(False)
        if ok:
            self._owner, self._n = me, 1
        return ok

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._n -= 1
        if not self._n:
            self._owner = None
            self._l.release()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        st = (self._n, self._owner)
        self._n, self._owner = 0, None
        self._l.release()
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._n, self._owner = st

    def _at_fork_reinit(self):
        self._l._at_fork_reinit()
        self._owner, self._n = None, 0


def install():
    threading.Lock = CoLock
    threading.RLock = CoRLock


install()
