"""The deterministic scheduler.

All simulated threads are real threads, but exactly one of them runs at any
time: it holds the token, and gives it up only at a yield point. Yield points
are every line of cdtools code which a managed thread executes, and every call
through one of the seams of ``boot.py``. Which thread runs next, when clocks
jump, which threads stall, and when the user presses Ctrl-C or an exception is
raised, is read from a plan, which is plain data.

plan = {
  'pre':    [[step, choice], ...]   switch to another thread at this step
  'stalls': [[step, seconds], ...]  the running thread stalls at this step
  'jumps':  [[step, seconds], ...]  the wall clock jumps at this step
  'ctrl_c': [step, ...]             Ctrl-C at this step (main thread)
  'ui':     [[nth flush, action], ...]   what the user does in the n-th event
                                    processing of a figure
  'thread_fail': [n, ...]           the n-th thread can't be started
  'wall0':  seconds
}
"""
import hashlib
import sys
import threading
from . import boot

COST = 2e-5       # simulated seconds per yield point
QUANTUM = 500     # no runnable thread waits for more steps than this


class SimAbort(BaseException):
    """Tears down the threads of a simulation which is over"""


class SimHang(BaseException):
    """The system can make no progress any more"""


class Task:
    def __init__(self, tid, name):
        self.id = tid
        self.name = name
        self.sem = boot.real.Lock()
        self.sem.acquire()
        self.ident = None
        self.bypass = False
        self.blocked = False
        self.pred = None
        self.deadline = None
        self.stalled_until = 0.
        self.done = False
        self.pending = None
        self.retrace = False
        self.points = 0
        self.exc = None


class Sim:
    def __init__(self, plan=None, trace=True, max_steps=400000,
                 ui_actions=None, record=None):
        self.record = record
        plan = plan or {}
        self.pre = {int(s): c for s, c in plan.get('pre', [])}
        self.stalls = {int(s): d for s, d in plan.get('stalls', [])}
        self.jumps = {int(s): d for s, d in plan.get('jumps', [])}
        self.ctrl_c = set(plan.get('ctrl_c', []))
        self.ui = {int(n): a for n, a in plan.get('ui', [])}
        self.fail_starts = set(plan.get('thread_fail', []))
        self.starts = 0
        self.ui_actions = ui_actions or {}
        self.trace = trace
        self.max_steps = max_steps
        self.now = 1000.
        self.wall_off = float(plan.get('wall0', 1.7e9)) - self.now
        self.steps = 0
        self.run_len = 0
        self.flushes = 0
        self.tasks = []
        self.by_ident = {}
        self.by_thread = {}
        self.aborting = False
        self.hash = hashlib.sha256()
        self.switches = 0
        self.fired = {}
        self.sched_hash = hashlib.sha256()
        self.events = []
        self._files = {}
        self._locations = {}

    # ---------------------------------------------------------- bookkeeping
    def count(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def log(self, *what):
        if len(self.events) < 4000:
            self.events.append(
                [self.steps, self.cur.id if self.tasks else 0, *what])
        self.hash.update(repr(what).encode())

    def manages_current(self):
        task = self.by_ident.get(threading.get_ident())
        return task is not None and not task.bypass

    def knows(self, thread):
        return id(thread) in self.by_thread

    def wall(self):
        self.point('time')
        return self.wall_off + self.now

    # ------------------------------------------------------------ life cycle
    def __enter__(self):
        assert boot.ACTIVE is None
        main = Task(0, 'main')
        main.ident = threading.get_ident()
        self.main = self.cur = main
        self.tasks.append(main)
        self.by_ident[main.ident] = main
        boot.ACTIVE = self
        if self.trace:
            sys.settrace(self._gtrace)
        return self

    def __exit__(self, *exc):
        sys.settrace(None)
        self.leftover = [t for t in self.tasks[1:] if not t.done]
        self.aborting = True
        for t in self.leftover:
            for _ in range(50):
                if t.done:
                    break
                t.pending = None
                self.cur = t
                t.blocked = False
                t.sem.release()
                self.main.sem.acquire()
        boot.ACTIVE = None
        self.by_ident.clear()
        # wait for the real threads
        for th, t in self.by_thread.values():
            boot.real.join(th, 10)
        return False

    def digest(self):
        return self.hash.hexdigest()[:16]

    # --------------------------------------------------------------- tracing
    def _gtrace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if fn.startswith(boot.CDTOOLS_DIR):
            return self._ltrace
        return None

    def _ltrace(self, frame, event, arg):
        if event == 'line':
            task = self.by_ident.get(threading.get_ident())
            if task is not None and not task.bypass:
                key = (frame.f_code, frame.f_lineno)
                loc = self._locations.get(key)
                if loc is None:
                    fn = frame.f_code.co_filename
                    loc = '%s:%d' % (fn[len(boot.CDTOOLS_DIR):],
                                     frame.f_lineno)
                    self._locations[key] = loc
                self.point(loc, task)
        return self._ltrace

    # ----------------------------------------------------------- yield point
    def point(self, kind, task=None):
        if task is None:
            task = self.by_ident[threading.get_ident()]
            if task.retrace and self.trace:
                task.retrace = False
                sys.settrace(self._gtrace)
        task.points += 1
        self.steps += 1
        self.run_len += 1
        self.now += COST
        step = self.steps
        self.hash.update(b'%d %s\n' % (task.id, kind.encode()))
        if self.record is not None:
            self.record.append((step, task.id, kind))
        if self.aborting:
            if task is not self.main:
                raise SimAbort()
            return
        if step > self.max_steps:
            self._hang('no progress within %d steps' % self.max_steps, task)
        if step in self.jumps:
            self.wall_off += self.jumps[step]
            self.count('clock_jump')
            self.log('clock jumps', self.jumps[step], kind)
        if step in self.ctrl_c:
            self.count('ctrl_c')
            self.log('ctrl-c', kind)
            self.main.pending = KeyboardInterrupt()
        if step in self.stalls:
            task.stalled_until = self.now + self.stalls[step]
            self.count('stall')
            self.log('stall', task.name, self.stalls[step], kind)
        if step in self.pre:
            self._reschedule(task, self.pre[step], kind)
        elif task.stalled_until > self.now:
            self._reschedule(task, 0, kind)
        elif self.run_len > QUANTUM:
            self._reschedule(task, 0, kind)
        if task.pending is not None and not task.blocked:
            self._deliver(task)

    def _deliver(self, task):
        exc, task.pending = task.pending, None
        task.retrace = True
        self.log('deliver', type(exc).__name__)
        raise exc

    def _hang(self, why, task):
        self.log('hang', why)
        self.hang = why
        self.aborting = True
        if task is self.main:
            raise SimHang(why)
        # let the main thread report it
        self.main.pending = SimHang(why)
        self.main.blocked = False
        self._handover(task, self.main)
        raise SimAbort()

    # ------------------------------------------------------------- scheduler
    def _runnable(self, t):
        if t.done or t.stalled_until > self.now:
            return False
        if not t.blocked:
            return True
        return (t.pending is not None or t.pred()
                or (t.deadline is not None and t.deadline <= self.now))

    def _reschedule(self, task, choice, kind):
        """The running task may have to give way to another one"""
        self.run_len = 0
        others = [t for t in self.tasks if t is not task and self._runnable(t)]
        if not others:
            if task.stalled_until > self.now or task.blocked:
                self._idle(task)
            return
        nxt = others[choice % len(others)]
        self._handover(task, nxt, kind)

    def _idle(self, task):
        """Nobody can run: advance the clock until somebody can"""
        self.run_len = 0
        while True:
            cand = [t for t in self.tasks if self._runnable(t)]
            if cand:
                nxt = cand[0]
                if nxt is not task:
                    self._handover(task, nxt, 'idle')
                return
            times = []
            for t in self.tasks:
                if t.done:
                    continue
                wake = None
                if not t.blocked or t.pending is not None or t.pred():
                    wake = t.stalled_until
                elif t.deadline is not None:
                    wake = max(t.deadline, t.stalled_until)
                if wake is not None:
                    times.append(wake)
            if not times:
                self._hang('deadlock: every thread is blocked', task)
                return
            self.now = max(self.now, min(times)) + 1e-9

    def _handover(self, task, nxt, kind=''):
        self.switches += 1
        self.sched_hash.update(b'%d>%d %s\n' % (task.id, nxt.id,
                                                kind.encode()))
        self.cur = nxt
        nxt.sem.release()
        if not task.done:
            task.sem.acquire()
            if self.aborting and task is not self.main:
                raise SimAbort()
            if task is self.main and isinstance(task.pending, SimHang):
                exc, task.pending = task.pending, None
                raise exc

    def _wait(self, pred, deadline, kind):
        """Blocks the running task"""
        task = self.by_ident[threading.get_ident()]
        self.point(kind, task)
        if task.retrace and self.trace:
            task.retrace = False
            sys.settrace(self._gtrace)
        if pred():
            return
        if self.aborting and task is not self.main:
            raise SimAbort()
        task.blocked, task.pred, task.deadline = True, pred, deadline
        try:
            self.run_len = 0
            others = [t for t in self.tasks
                      if t is not task and self._runnable(t)]
            if others:
                self._handover(task, others[0], kind)
                if not self._runnable(task):
                    self._idle(task)
            else:
                self._idle(task)
        finally:
            task.blocked, task.pred, task.deadline = False, None, None
        if task.pending is not None:
            self._deliver(task)

    # ----------------------------------------------------------------- seams
    def sleep(self, secs):
        self.log('sleep', secs)
        self._wait(lambda: False, self.now + max(float(secs), 0), 'sleep')

    def acquire(self, lock, blocking, timeout):
        self.point('acquire')
        deadline = None
        if blocking and timeout is not None and timeout >= 0:
            deadline = self.now + timeout
        while True:
            if lock.acquire(False):
                return True
            if not blocking:
                return False
            if deadline is not None and self.now >= deadline:
                return False
            self._wait(lambda: not lock.locked(), deadline, 'blocked')

    def start_thread(self, th):
        parent = self.by_ident[threading.get_ident()]
        self.point('start', parent)
        self.starts += 1
        if self.starts in self.fail_starts:
            self.count('thread_start_failure')
            self.log('thread does not start')
            raise RuntimeError("can't start new thread")
        task = Task(len(self.tasks), th.name)
        self.log('start', task.id)
        up = boot.real.Lock()
        up.acquire()
        run = th.run

        def simulated_run():
            task.ident = threading.get_ident()
            task.bypass = True
            self.by_ident[task.ident] = task
            up.release()
            task.sem.acquire()
            task.bypass = False
            try:
                if self.aborting:
                    return
                if self.trace:
                    sys.settrace(self._gtrace)
                try:
                    run()
                    self.point('exiting', task)
                except SimAbort:
                    pass
                except BaseException as e:
                    task.exc = e
                    if not isinstance(e, SystemExit):
                        self.log('thread died', type(e).__name__)
            finally:
                sys.settrace(None)
                task.bypass = True
                task.done = True
                self._finished(task)

        th.run = simulated_run
        parent.bypass = True
        try:
            real_start = boot.real.start
            real_start(th)
        finally:
            parent.bypass = False
        up.acquire()
        self.tasks.append(task)
        self.by_thread[id(th)] = (th, task)
        self.point('started', parent)

    def _finished(self, task):
        self.by_ident.pop(task.ident, None)
        self.run_len = 0
        if self.aborting:
            self.cur = self.main
            self.main.sem.release()
            return
        others = [t for t in self.tasks if self._runnable(t)]
        if others:
            self.cur = others[0]
            self.switches += 1
            self.sched_hash.update(b'%d> %d end\n' % (task.id, others[0].id))
            others[0].sem.release()
            return
        try:
            self._idle(task)
        except SimAbort:
            pass

    def join_thread(self, th, timeout):
        task = self.by_thread[id(th)][1]
        self.log('join', task.id, timeout)
        deadline = None if timeout is None else self.now + max(timeout, 0)
        self._wait(lambda: task.done, deadline, 'join')

    def thread_alive(self, th):
        self.point('is_alive')
        return not self.by_thread[id(th)][1].done

    def flush_events(self, canvas):
        self.point('flush_events')
        self.flushes += 1
        action = self.ui.get(self.flushes)
        if action is not None:
            self.count('ui_' + (action if isinstance(action, str)
                                else action[0]))
            self.log('ui', action)
            self.ui_actions[action if isinstance(action, str)
                            else action[0]](canvas, action)

    # ------------------------------------------------------------ harness API
    def running(self):
        """The background threads which have not ended"""
        return [t for t in self.tasks[1:] if not t.done]

    def let_others_run(self, seconds=5.):
        """Gives every background thread simulated time to run"""
        end = self.now + seconds
        while self.running() and self.now < end:
            self._wait(lambda: not self.running(), self.now + 0.01, 'drain')

    def stats(self):
        return {'steps': self.steps, 'switches': self.switches,
                'sim_seconds': self.now - 1000., 'fired': dict(self.fired),
                'interleaving': self.sched_hash.hexdigest()[:16],
                'digest': self.digest()}
