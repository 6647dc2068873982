"""Locks the cooperative thread scheduler knows about.

While the package is imported, `threading.Lock`/`RLock` give these; without a scheduler they
behave exactly like the real ones.
"""
import threading

_real = (threading.Lock, threading.RLock)
current = None           # active thread scheduler, if any


class SimLock:
    reentrant = False

    def __init__(self):
        self._l = _real[1]() if self.reentrant else _real[0]()

    def acquire(self, blocking=True, timeout=-1):
        s = current
        if s is None or not s.mine():
            return self._l.acquire(blocking, timeout)
        if not blocking:
            return self._l.acquire(False)
        n = 0
        while not self._l.acquire(False):
            s.blocked(self)
            n += 1
            if timeout is not None and timeout >= 0 and n > 50:
                return False
        return True

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    def _at_fork_reinit(self):
        self._l._at_fork_reinit()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    reentrant = True

    def locked(self):
        return False


def install():
    threading.Lock, threading.RLock = SimLock, SimRLock


def uninstall():
    threading.Lock, threading.RLock = _real
