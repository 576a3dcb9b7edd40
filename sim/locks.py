"""
Locks the simulated scheduler knows about.

``threading.Lock`` / ``threading.RLock`` are replaced before the code under
test is imported.  Outside of simulated threads they behave like the originals.
A simulated thread that has to wait for a lock hands control to another
simulated thread instead of blocking the process.
"""
import _thread
import threading

_real_allocate = _thread.allocate_lock
SCHED = None     # set by sim.sched while a schedule is running


class SimLock:
    def __init__(self):
        self._lk = _real_allocate()

    def acquire(self, blocking=True, timeout=-1):
        s = SCHED
        if s is None or not s.is_sim_thread():
            return self._lk.acquire(blocking, timeout)
        while True:
            if self._lk.acquire(False):
                s.unblocked()
                return True
            if not blocking:
                return False
            if not s.blocked(timed=timeout is not None and timeout >= 0):
                return False

    def release(self):
        self._lk.release()

    def locked(self):
        return self._lk.locked()

    def _at_fork_reinit(self):
        self._lk = _real_allocate()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def install():
    if getattr(threading, '_sim_installed', False):
        return
    threading._sim_installed = True
    threading.Lock = SimLock
    # The pure Python RLock is built on _allocate_lock
    pyrlock = getattr(threading, '_PyRLock', None) or threading._RLock

    class SimRLock(pyrlock):
        def __init__(self):
            super().__init__()
            self._block = SimLock()
    threading.RLock = SimRLock
