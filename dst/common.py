"""What every property module uses to run scenarios and report on them"""
import contextlib
import gc
import hashlib
import io
import json
import logging
import os
import pickle
import random
import shutil
import sys
import tempfile
import traceback
import numpy as np
import torch as t
from . import boot
from .sim import Sim, SimHang, SimAbort


class Violation(Exception):
    """Raised to end a run early, once a violation has been noted"""


_scratch = []      # directories which this process has made


class Run:
    """Collects what happens in one simulated run"""

    def __init__(self):
        self.violations = []
        self.probes = {}
        self.sims = []
        self.tags = []
        self.nontrivial = False
        self._dirs = []
        self.hash = hashlib.sha256()
        self.sim_seconds = 0.

    # ----------------------------------------------------------- verdicts
    def bad(self, kind, detail='', stop=False):
        v = {'kind': kind, 'detail': str(detail)[:1500]}
        if kind not in [o['kind'] for o in self.violations]:
            self.violations.append(v)
        if stop:
            raise Violation(kind)

    def check(self, cond, kind, detail='', stop=False):
        if not cond:
            self.bad(kind, detail() if callable(detail) else detail, stop)
        return bool(cond)

    # -------------------------------------------------------------- reach
    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def note(self, *what):
        """Goes into the event log, whose hash must be reproducible"""
        self.hash.update(repr(what).encode())

    def note_state(self, state):
        for k in sorted(state):
            v = state[k]
            if v.is_complex():
                v = t.view_as_real(v.resolve_conj())
            self.hash.update(k.encode())
            self.hash.update(v.contiguous().numpy().tobytes())

    # ---------------------------------------------------------- resources
    def scratch(self):
        d = tempfile.mkdtemp(prefix='dst-')
        self._dirs.append(d)
        _scratch.append(d)
        return d

    @contextlib.contextmanager
    def sim(self, plan=None, **kw):
        sim = Sim(plan, **kw)
        self.sims.append(sim)
        with sim:
            yield sim

    def close(self):
        for d in self._dirs:
            shutil.rmtree(d, ignore_errors=True)

    def result(self):
        fired, steps, switches, secs = {}, 0, 0, self.sim_seconds
        h = hashlib.sha256()
        for s in self.sims:
            st = s.stats()
            steps += st['steps']
            switches += st['switches']
            secs += st['sim_seconds']
            for k, v in st['fired'].items():
                fired[k] = fired.get(k, 0) + v
            h.update(st['interleaving'].encode())
            self.hash.update(st['digest'].encode())
        for k, v in self.probes.items():
            if k.startswith('fault:'):
                fired[k[6:]] = fired.get(k[6:], 0) + v
        return {'violations': self.violations,
                'probes': {k: v for k, v in self.probes.items()
                           if not k.startswith('fault:')},
                'fired': fired, 'steps': steps, 'switches': switches,
                'sim_seconds': secs, 'interleaving': h.hexdigest()[:16],
                'tags': self.tags, 'nontrivial': self.nontrivial,
                'digest': self.hash.hexdigest()[:16]}


def forked(fn):
    """The result of a function which is called in a copy of this process, or
    its exception. If that process dies, this one follows."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        _scratch.clear()
        try:
            os.close(r)
            try:
                msg = ('ok', fn())
            except BaseException as e:
                msg = ('raised', '%s: %s' % (type(e).__name__, e),
                       traceback.format_exc(), from_cdtools(e) or
                       missing_attribute(e))
            with os.fdopen(w, 'wb') as f:
                pickle.dump(msg, f)
            code = 0
        finally:
            for d in _scratch:
                shutil.rmtree(d, ignore_errors=True)
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if status:
        os._exit(1)
    msg = pickle.loads(data)
    if msg[0] == 'raised':
        raise Forked(*msg[1:])
    return msg[1]


class Forked(Exception):
    """An exception in a copy of this process"""

    def __init__(self, text, tb, cdtools):
        super().__init__(text + '\n' + tb)
        self.text, self.tb, self.cdtools = text, tb, cdtools


def isolated(fn):
    """Runs something which may crash the process, as HDF5 sometimes does when
    a write fails. Returns (how it ended, the result or a description)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 2)
            try:
                msg = ('ok', fn())
            except BaseException as e:
                msg = ('raised', type(e).__name__, str(e)[:300],
                       from_cdtools(e))
            with os.fdopen(w, 'wb') as f:
                pickle.dump(msg, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    try:
        msg = pickle.loads(data)
    except (EOFError, pickle.UnpicklingError):
        return 'died', status
    if msg[0] == 'raised' and not msg[3] and msg[1] != 'OSError':
        raise RuntimeError('isolated: %s: %s' % (msg[1], msg[2]))
    return msg[0], msg[1] if msg[0] == 'ok' else '%s: %s' % (msg[1], msg[2])


def _warm_up_once(sys, opt, call):
    from . import session as S
    model, ds = S.make_system(sys)
    with Sim({}, trace=False):
        for schedule in (False, True):
            if opt == 'adam':
                call['kw']['schedule'] = schedule
            list(S.start(model, ds, call, True))
        if opt == 'adam':
            model.inspect(ds)


def library_settings():
    """Global settings of Python and the libraries"""
    import matplotlib
    import warnings
    return {'gradients': t.is_grad_enabled(),
            'inference mode': t.is_inference_mode_enabled(),
            'default dtype': t.get_default_dtype(),
            'torch threads': (t.get_num_threads(),
                              t.get_num_interop_threads()),
            'torch printing': str(vars(t._tensor_str.PRINT_OPTS)),
            'deterministic': (t.are_deterministic_algorithms_enabled(),
                              t.backends.cudnn.benchmark,
                              t.backends.cudnn.deterministic),
            'matmul precision': t.get_float32_matmul_precision(),
            'denormals': float(t.tensor(1e-40) * .5),
            'anomaly mode': t.is_anomaly_enabled(),
            'numpy errors': str(np.geterr()),
            'numpy error call': str(np.geterrcall()),
            'numpy printing': str(np.get_printoptions()),
            'warnings': str(warnings.filters),
            'recursion limit': sys.getrecursionlimit(),
            'switch interval': sys.getswitchinterval(),
            'directory': os.getcwd(), 'environment': dict(os.environ),
            'plot settings': str(sorted(matplotlib.rcParams.items())),
            'interactive': matplotlib.is_interactive(),
            'log level': (logging.root.level, logging.root.manager.disable)}


def changes(a, b):
    return [k for k in a if a[k] != b[k]]


# The settings which are in place before anything of cdtools has run, and those
# which were different after something had
AT_FIRST = {}
LEFT_BEHIND = set()


def warm_up():
    """Libraries set up many things on their first use. This has to happen
    before the first run, which would otherwise differ from the others."""
    from . import session as S, world as W
    rnd = random.Random(0)
    reset()
    AT_FIRST.update(library_settings())
    for kind in W.KINDS + ['tiny']:
        sys = S.gen_system(rnd, 1. if kind == 'tiny' else 0., [kind])
        for opt in ('adam', 'sgd', 'lbfgs'):
            reset()
            try:
                _warm_up_once(sys, opt, S.gen_call(rnd, sys, opt, 1,
                                                   safe=False))
            except (MemoryError, KeyboardInterrupt):
                raise
            except BaseException as e:
                # If the code under test is broken, the runs will tell
                if not (from_cdtools(e) or isinstance(e, SimHang)):
                    raise
            LEFT_BEHIND.update(changes(library_settings(), AT_FIRST))
    reset()
    gc.freeze()


def reset():
    """Nothing of an earlier run may leak into this one"""
    from matplotlib import pyplot as plt
    import matplotlib
    gc.enable()
    plt.close('all')
    gc.collect()
    gc.disable()
    matplotlib.rcdefaults()
    matplotlib.rcParams['figure.max_open_warning'] = 0
    sys.stdin = io.StringIO()
    t.manual_seed(12345)
    np.random.seed(12345)
    random.seed(12345)
    t.set_grad_enabled(True)
    t.set_default_dtype(t.float32)


def from_cdtools(exc):
    """Whether the code under test was running when this was raised"""
    while exc is not None:
        for frame in traceback.extract_tb(exc.__traceback__):
            if frame.filename.startswith(boot.CDTOOLS_DIR):
                return True
        exc = exc.__cause__ or exc.__context__
    return False


def missing_attribute(e):
    """Whether a public attribute of an object of cdtools doesn't exist"""
    return isinstance(e, AttributeError) and e.name \
        and not e.name.startswith('_') \
        and type(e.obj).__module__.startswith('cdtools.')


def execute(module, scenario):
    """Runs a scenario. Raises only for errors of the harness"""
    reset()
    run = Run()
    try:
        module.run(scenario, run)
    except Violation:
        pass
    except SimHang as e:
        run.bad('hang', e)
    except SimAbort:
        raise RuntimeError('SimAbort escaped')
    except (MemoryError, KeyboardInterrupt):
        raise
    except BaseException as e:
        if not from_cdtools(e) and not missing_attribute(e):
            raise
        tb = ''.join(traceback.format_exception(e)[-6:])
        run.bad('exception', '%s: %s\n%s' % (type(e).__name__, e, tb))
    finally:
        run.close()
        reset()
    return run.result()


def materialise(module, scenario):
    """Some schedules are chosen with the help of a trial run"""
    reset()
    try:
        scenario = module.materialise(scenario)
    except (MemoryError, KeyboardInterrupt):
        raise
    except BaseException as e:
        # The actual run is going to report what is wrong
        if not (from_cdtools(e) or isinstance(e, (SimHang, Violation))):
            raise
    scenario['materialised'] = True
    scenario.setdefault('plan', {})
    return scenario


def size(obj):
    return len(json.dumps(obj, sort_keys=True))


def key_of(obj):
    return hashlib.sha256(
        json.dumps(obj, sort_keys=True).encode()).hexdigest()[:12]


# ------------------------------------------------------------ schedules
def sample_points(rnd, record, n, thread=None, prefix=''):
    """Picks steps of a recorded execution, such that each place in the code
    is as likely as any other, no matter how often it ran"""
    places = {}
    for step, tid, kind in record:
        if (thread is None or tid == thread) and kind.startswith(prefix):
            places.setdefault(kind, []).append(step)
    names = sorted(places)
    if not names:
        return []
    return sorted({rnd.choice(places[rnd.choice(names)]) for _ in range(n)})


def random_plan(rnd, record, max_pre=40, stalls=True, jumps=True):
    """A random schedule for an execution which looks like the recorded one"""
    plan = {'wall0': rnd.choice([1.7e9, 1.7e9, 100., 4e9])}
    last = record[-1][0] if record else 1
    style = rnd.choice(['few', 'many', 'uniform', 'none', 'burst'])
    if style == 'few':
        pts = sample_points(rnd, record, rnd.randint(1, 6))
    elif style == 'many':
        pts = sample_points(rnd, record, max_pre)
    elif style == 'uniform':
        pts = sorted({rnd.randint(1, int(last * 1.2) + 1)
                      for _ in range(max_pre)})
    elif style == 'burst':
        at = rnd.randint(1, last)
        pts = list(range(at, at + rnd.randint(5, 60)))
    else:
        pts = []
    plan['pre'] = [[p, rnd.randint(0, 3)] for p in pts]
    if stalls and rnd.random() < .4:
        plan['stalls'] = [[p, rnd.choice([.001, .02, .2, 1.])] for p in
                          sample_points(rnd, record, rnd.randint(1, 3))]
    if jumps and rnd.random() < .3:
        plan['jumps'] = [[p, rnd.choice([-3600., -1., -.02, .5, 86400.])]
                         for p in sample_points(rnd, record,
                                                rnd.randint(1, 3))]
    return plan
