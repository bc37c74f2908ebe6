"""Puts every source of nondeterminism of the process behind a seam.

This module must be imported before cdtools, torch and matplotlib. It replaces

* the clocks and ``time.sleep``,
* thread creation, ``join`` and ``is_alive``,
* every lock (and with the locks: events, conditions, semaphores, queues,
  thread pools), and
* ``datetime.datetime.now``

by versions which ask the active simulation (see ``sim.py``). While no
simulation is active, or on threads which the simulation does not manage,
they behave exactly like the originals.
"""
import os
import sys

for _k in ('OMP_NUM_THREADS', 'MKL_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
    os.environ[_k] = '1'
# Its allocator may spin forever in copies of processes which had threads
os.environ['MKL_DISABLE_FAST_MM'] = '1'
os.environ['MPLBACKEND'] = 'Agg'
os.environ['CUDA_VISIBLE_DEVICES'] = ''
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ.setdefault('MPLCONFIGDIR', '/tmp/.dst-mplconfig-%d' % os.getuid())
sys.dont_write_bytecode = True

REPO = os.environ.get('DST_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
CDTOOLS_DIR = os.path.join(SRC, 'cdtools') + os.sep
sys.path[:] = [p for p in sys.path if p not in (SRC,)]
sys.path.insert(0, SRC)

import _thread          # noqa: E402
import threading        # noqa: E402
import time             # noqa: E402
import queue            # noqa: E402
import datetime         # noqa: E402

real = type('real', (), {})()
real.time = time.time
real.monotonic = time.monotonic
real.perf_counter = time.perf_counter
real.sleep = time.sleep
real.Lock = _thread.allocate_lock
real.datetime = datetime.datetime
real.start = threading.Thread.start
real.join = threading.Thread.join
real.is_alive = threading.Thread.is_alive

ACTIVE = None     # the active simulation, if any


def current():
    """The active simulation, if it manages the calling thread"""
    s = ACTIVE
    if s is not None and s.manages_current():
        return s
    return None


# --------------------------------------------------------------------- time
def _time():
    s = current()
    return real.time() if s is None else s.wall()


def _monotonic():
    s = current()
    return real.monotonic() if s is None else s.now


def _perf_counter():
    s = current()
    return real.perf_counter() if s is None else s.now


def _sleep(secs):
    s = current()
    return real.sleep(secs) if s is None else s.sleep(secs)


def _ns(f):
    return lambda: int(f() * 1e9)


time.time, time.monotonic, time.perf_counter = _time, _monotonic, _perf_counter
time.sleep = _sleep
time.time_ns, time.monotonic_ns = _ns(_time), _ns(_monotonic)
time.perf_counter_ns = _ns(_perf_counter)
threading._time = _monotonic
queue.time = _monotonic


class _DateMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, real.datetime)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, real.datetime)


class SimDatetime(real.datetime, metaclass=_DateMeta):
    """datetime.datetime, with now() taken from the simulated wall clock"""
    def __new__(cls, *args, **kwargs):
        return real.datetime.__new__(real.datetime, *args, **kwargs)

    @classmethod
    def now(cls, tz=None):
        return real.datetime.fromtimestamp(_time(), tz)

    @classmethod
    def utcnow(cls):
        return real.datetime.fromtimestamp(
            _time(), datetime.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return real.datetime.fromtimestamp(_time())


# -------------------------------------------------------------------- locks
class SimLock:
    """A lock which, in a simulation, blocks in the simulated scheduler"""
    __slots__ = ('_lock', '_sim', '__weakref__')

    def __init__(self):
        self._lock = real.Lock()
        self._sim = current()

    def acquire(self, blocking=True, timeout=-1):
        s = current()
        if s is None:
            return self._lock.acquire(blocking, timeout)
        if self._sim is not s and self._lock.acquire(False):
            # A lock of some library, from before the simulation. It is not
            # a place to switch threads unless somebody holds it.
            return True
        return s.acquire(self._lock, blocking, timeout)

    def release(self):
        self._lock.release()
        s = current()
        if s is not None and self._sim is s:
            s.point('release')

    def locked(self):
        return self._lock.locked()

    __enter__ = acquire

    def __exit__(self, *exc):
        self.release()

    def _at_fork_reinit(self):
        self._lock._at_fork_reinit()


threading.Lock = SimLock
threading._allocate_lock = SimLock
threading._CRLock = None     # RLocks are then built on top of Lock
if hasattr(queue, '_PySimpleQueue'):
    queue.SimpleQueue = queue._PySimpleQueue


# ------------------------------------------------------------------ threads
def _start(self):
    s = current()
    if s is None:
        return real.start(self)
    return s.start_thread(self)


def _join(self, timeout=None):
    s = current()
    if s is None or not s.knows(self):
        return real.join(self, timeout)
    return s.join_thread(self, timeout)


def _is_alive(self):
    s = current()
    if s is None or not s.knows(self):
        return real.is_alive(self)
    return s.thread_alive(self)


threading.Thread.start = _start
threading.Thread.join = _join
threading.Thread.is_alive = _is_alive


def load():
    """Imports the libraries and the code under test, behind the seams"""
    import torch
    torch.set_num_threads(1)
    torch.use_deterministic_algorithms(True)
    import matplotlib
    matplotlib.use('Agg')
    import warnings
    warnings.simplefilter('ignore')
    datetime.datetime = SimDatetime
    try:
        import cdtools
    finally:
        datetime.datetime = real.datetime
    # everything of cdtools which was defined from now on sees the seam, but
    # code which says datetime.datetime.now() looks it up when it runs
    datetime.datetime = SimDatetime
    got = os.path.realpath(cdtools.__file__)
    assert got.startswith(os.path.realpath(CDTOOLS_DIR)), got
    from matplotlib.backend_bases import FigureCanvasBase
    orig = FigureCanvasBase.flush_events

    def flush_events(self):
        s = current()
        if s is not None:
            s.flush_events(self)
        return orig(self)
    FigureCanvasBase.flush_events = flush_events
    return cdtools
