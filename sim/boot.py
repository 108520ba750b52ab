"""Seams: what library code could use to reach the outside world is replaced *before* it
is imported.  Harness code keeps the originals."""
import os
import sys
import time as _time
import random as _random
import threading as _threading
import _thread

REPO = os.environ.get("SIM_REPO", "/repo")
PKG = os.path.join(REPO, "epcpy") + os.sep
HERE = os.path.dirname(os.path.abspath(__file__)) + os.sep

real_lock = _thread.allocate_lock
real_ident = _thread.get_ident
real_monotonic = _time.monotonic
real_sleep = _time.sleep
real_urandom = os.urandom


class Clock:
    """virtual clock: advances only when told to"""

    def __init__(self):
        self.reset()

    def reset(self):
        self.wall = 1_700_000_000.0
        self.mono = 1000.0
        self.reads = 0

    def advance(self, d):
        self.wall += d
        self.mono += max(0.0, d)


CLOCK = Clock()
RNG = _random.Random(99)    # what library code gets from the system's random source
SCHED = None            # the running engine, if any
SEAM_USE = {}           # seam name -> times library code went through it


def _used(name):
    SEAM_USE[name] = SEAM_USE.get(name, 0) + 1


class SimDeadlock(BaseException):
    pass


class _Base:
    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __reduce__(self):
        raise TypeError("cannot pickle 'lock' object")


class SimLock(_Base):
    """threading.Lock as seen by library code"""

    def __init__(self):
        self._held = False

    def acquire(self, blocking=True, timeout=-1):
        _used("lock")
        while self._held:
            if not blocking:
                return False
            if not _wait(self, timeout):
                return False
            timeout = timeout if timeout < 0 else 0
        self._held = True
        return True

    def release(self):
        if not self._held:
            raise RuntimeError("release unlocked lock")
        self._held = False
        _wake(self)

    def locked(self):
        return self._held

    def _at_fork_reinit(self):
        self._held = False


class SimRLock(_Base):
    def __init__(self):
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        _used("rlock")
        me = real_ident()
        if self._owner == me:
            self._count += 1
            return True
        while self._owner is not None:
            if not blocking:
                return False
            if not _wait(self, timeout):
                return False
            timeout = timeout if timeout < 0 else 0
        self._owner = me
        self._count = 1
        return True

    def release(self):
        if self._owner != real_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            _wake(self)

    def _is_owned(self):
        return self._owner == real_ident()

    def _release_save(self):
        c, self._count = self._count, 0
        o, self._owner = self._owner, None
        _wake(self)
        return c, o

    def _acquire_restore(self, st):
        self.acquire()
        self._count, self._owner = st

    def _at_fork_reinit(self):
        self._owner = None
        self._count = 0


def _wait(lock, timeout):
    """block the current simulated thread; False on (virtual) timeout"""
    if SCHED is not None and SCHED.owns_current():
        return SCHED.block(lock, timeout)
    if timeout is not None and timeout >= 0:
        CLOCK.advance(timeout)
        return False
    raise SimDeadlock("the only running thread waits for a lock that nobody will release")


def _wake(lock):
    if SCHED is not None:
        SCHED.unblock(lock)


def _from_library():
    """is the innermost non-infrastructure frame library code?"""
    f = sys._getframe(2)
    for _ in range(12):
        if f is None:
            return False
        fn = f.f_code.co_filename
        if fn.startswith(PKG):
            return True
        if fn.startswith(HERE) or "importlib" in fn:
            return False
        f = f.f_back
    return False


def install():
    Lock0, RLock0, alloc0 = _threading.Lock, _threading.RLock, _threading._allocate_lock

    def Lock(*a, **k):
        return SimLock() if _from_library() else Lock0(*a, **k)

    def RLock(*a, **k):
        return SimRLock() if _from_library() else RLock0(*a, **k)

    def allocate_lock(*a, **k):
        return SimLock() if _from_library() else alloc0(*a, **k)

    _threading.Lock = Lock
    _threading.RLock = RLock
    _threading._allocate_lock = allocate_lock
    _thread.allocate_lock = allocate_lock

    def vtime():
        CLOCK.reads += 1
        return CLOCK.wall

    def vmono():
        CLOCK.reads += 1
        return CLOCK.mono

    def vsleep(d):
        _used("sleep")
        CLOCK.advance(d)
        if SCHED is not None and SCHED.owns_current():
            SCHED.yield_now()

    _time.time = vtime
    _time.monotonic = vmono
    _time.perf_counter = vmono
    _time.process_time = vmono
    _time.thread_time = vmono
    _time.time_ns = lambda: int(vtime() * 1e9)
    _time.monotonic_ns = lambda: int(vmono() * 1e9)
    _time.perf_counter_ns = lambda: int(vmono() * 1e9)
    _time.sleep = vsleep
    lt, gt, ct, st = _time.localtime, _time.gmtime, _time.ctime, _time.strftime
    _time.localtime = lambda s=None: lt(vtime() if s is None else s)
    _time.gmtime = lambda s=None: gt(vtime() if s is None else s)
    _time.ctime = lambda s=None: ct(vtime() if s is None else s)
    _time.strftime = lambda f, t=None: st(f, lt(vtime()) if t is None else t)

    import datetime as _dt

    class datetime(_dt.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(vtime(), tz)

        @classmethod
        def utcnow(cls):
            return cls.fromtimestamp(vtime(), _dt.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.now()

    class date(_dt.date):
        @classmethod
        def today(cls):
            return cls.fromtimestamp(vtime())

    _dt.datetime, _dt.date = datetime, date

    def urandom(n):
        if _from_library():
            _used("urandom")
            return RNG.randbytes(n)
        return real_urandom(n)
    os.urandom = urandom
    _random._urandom = urandom
    Random0, seed0 = _random.Random, _random.seed

    class Random(Random0):
        def seed(self, a=None, version=2):
            if a is None and _from_library():
                _used("random seed")
                a = RNG.getrandbits(64)
            super().seed(a, version)

        def __init__(self, x=None):
            if x is None and _from_library():
                _used("random seed")
                x = RNG.getrandbits(64)
            super().__init__(x)

    def seed(a=None, version=2):
        if a is None and _from_library():
            _used("random seed")
            a = RNG.getrandbits(64)
        seed0(a, version)
    _random.Random, _random.seed = Random, seed


def load():
    """import the library from the working tree and make sure it is that one"""
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import epcpy
    import epcpy.epc_schemes
    import epcpy.utils.parsers
    import epcpy.utils.common
    f = os.path.realpath(epcpy.__file__)
    if not f.startswith(os.path.realpath(PKG)):
        raise RuntimeError("wrong epcpy imported: %s" % f)
    return epcpy
