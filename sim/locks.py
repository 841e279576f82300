"""Simulated locks: locks that mpsci itself creates become cooperative, so a deadlock is seen at once and
deterministically instead of hanging the process.  Locks created by anyone else stay real."""
import itertools
import sys
import threading

_real = {}
_prefix = None
park = None              # set by the task scheduler: park(blocked_on) suspends the current task


class Deadlock(BaseException):
    pass


_tokens = threading.local()
_ids = itertools.count(1)


def current():
    """Identity of the calling thread; never reused, unlike the system's."""
    t = getattr(_tokens, 'id', None)
    if t is None:
        t = _tokens.id = next(_ids)
    return t


class SimLock:
    reentrant = False

    def __init__(self):
        self.owner = None
        self.depth = 0

    def acquire(self, blocking=True, timeout=-1):
        while self.owner is not None and not (self.reentrant and self.owner == current()):
            if not blocking or (timeout is not None and timeout >= 0):
                return False
            if park is None or self.owner == current():
                raise Deadlock('blocking acquire of a lock that nobody can release')
            park(self)
        self.owner = current()
        self.depth += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    reentrant = True


def _factory(real, sim):
    def make(*a, **kw):
        f = sys._getframe(1)
        if f.f_code.co_filename.startswith(_prefix):
            return sim()
        # Condition / Semaphore objects built by mpsci through threading
        g = f.f_back
        if f.f_code.co_filename.endswith('threading.py') and g is not None:
            for _ in range(3):
                if g is None:
                    break
                if g.f_code.co_filename.startswith(_prefix):
                    return sim()
                g = g.f_back
        return real(*a, **kw)
    return make


def install(prefix):
    global _prefix
    _prefix = prefix
    if _real:
        return
    _real['Lock'], _real['RLock'] = threading.Lock, threading.RLock
    threading.Lock = _factory(_real['Lock'], SimLock)
    threading.RLock = _factory(_real['RLock'], SimRLock)
