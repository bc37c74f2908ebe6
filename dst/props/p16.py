"""What a reconstruction yields doesn't depend on what else the program does:
jobs are run one by one first, and then interleaved with each other, with
failing ones, and with everything which only reads"""
import io
import json
import os
import random
import signal
import sys
import threading
import numpy as np
import torch as t
from matplotlib import pyplot as plt
from .. import session as S, vfs, world as W
from ..sim import SimHang

READS = ['inspect', 'report', 'save', 'predict', 'compare', 'dataset',
         'split', 'copy', 'close', 'plots', 'load']
NOISE = ['failing', 'interrupted', 'abandoned', 'disk', 'other', 'rng',
         'rc', 'bad_call', 'checkpoint', 'handler', 'handler']


def gen_job(rnd):
    system = S.gen_system(rnd, .2, n=rnd.randint(4, 6))
    ops = []
    for _ in range(rnd.randint(1, 4)):
        u = rnd.random()
        if u < .7 or not ops:
            call = S.gen_call(rnd, system, max_iter=3)
            call['op'] = 'optimize'
            call['thread'] = rnd.random() < .5
            ops.append(call)
        elif u < .8:
            ops.append({'op': 'tidy'})
        elif u < .9:
            ops.append({'op': 'reload'})
        else:
            ops.append({'op': 'again'})
    return {'system': system, 'ops': ops, 'seed': rnd.randrange(10**6),
            'share': None}


def generate(rnd):
    jobs = [gen_job(rnd)]
    while len(jobs) < 3 and rnd.random() < .75:
        u = rnd.random()
        if u < .3:
            # The same kind of model, differently
            job = gen_job(rnd)
            job['system'] = jobs[0]['system']
            for op in job['ops']:
                if op['op'] == 'optimize':
                    op.update({k: v for k, v in S.gen_call(
                        rnd, job['system'], op['opt']).items()})
                    if S.kind_of(job['system']) != 'rpi':
                        op.pop('subset', None)
        elif u < .4 and 'tiny' not in jobs[0]['system']:
            # The same, but measured with another detector
            job = json.loads(json.dumps(jobs[0]))
            job['seed'] = rnd.randrange(10**6)
            job['system']['data']['geo'] = W.gen_geometry(rnd)
            job['ops'] = job['ops'][:2]
        elif u < .55:
            job = gen_job(rnd)
            if 'tiny' not in job['system'] and 'tiny' not in \
                    jobs[0]['system'] and S.kind_of(job['system']) == \
                    S.kind_of(jobs[0]['system']):
                job['system']['data'] = jobs[0]['system']['data']
                job['share'] = 0
                n = job['system']['data']['n']
                for op in job['ops']:
                    if isinstance(op.get('subset'), int):
                        op['subset'] = min(op['subset'], n - 1)
                    elif op.get('subset'):
                        op['subset'] = [i for i in op['subset'] if i < n] \
                            or [0]
                for k in ('simulate_finite_pixels', 'oversampling'):
                    job['system']['model']['kw'].pop(k, None)
        else:
            job = gen_job(rnd)
        jobs.append(job)
    order = []
    for _ in range(rnd.randint(4, 24)):
        u = rnd.random()
        if u < .6:
            order.append(['job', rnd.randrange(len(jobs))])
        elif u < .85:
            order.append(['read', rnd.randrange(len(jobs)),
                          rnd.choice(READS)])
        else:
            order.append(['noise', rnd.choice(NOISE), rnd.randrange(10**6)])
    return {'jobs': jobs, 'order': order, 'pre': rnd.choice([0, 0, 5, 20]),
            'plan_seed': rnd.randrange(10**6), 'plan': {}}


class Job:
    def __init__(self, spec, run, number, datasets=None):
        self.spec, self.run, self.number = spec, run, number
        self.datasets = datasets
        t.manual_seed(spec['seed'])
        self.rng = t.get_rng_state()
        self.np_rng = np.random.RandomState(spec['seed']).get_state()
        self.outcomes = []
        self.model = self.ds = None
        self.gen = None
        self.todo = list(spec['ops'])
        self.done = False
        self.rec = None

    def step(self):
        """Does the next piece of work of this job"""
        if self.done:
            return False
        others = t.get_rng_state(), np.random.get_state()
        t.set_rng_state(self.rng)
        np.random.set_state(self.np_rng)
        try:
            self.outcomes.append(self._step())
        finally:
            self.rng = t.get_rng_state()
            self.np_rng = np.random.get_state()
            t.set_rng_state(others[0])
            np.random.set_state(others[1])
        return True

    def _step(self):
        if self.model is None:
            share = self.spec['share']
            if self.datasets is not None and share is not None \
                    and self.datasets.get(share) is not None:
                self.ds = self.datasets[share]
                self.model = W.make_model(self.spec['system']['model'],
                                          self.ds)
            else:
                self.model, self.ds = S.make_system(self.spec['system'])
            # as a user would do it
            t.manual_seed(self.spec['seed'] + 1)
            if self.datasets is not None:
                self.datasets[self.number] = self.ds
            return self.outcome('made')
        if self.gen is None:
            if not self.todo:
                self.done = True
                return self.outcome('end')
            op = self.todo.pop(0)
            if op['op'] == 'tidy':
                if hasattr(self.model, 'tidy_probes'):
                    self.model.tidy_probes()
                return self.outcome('tidy')
            if op['op'] == 'again':
                # From the start, with a new model
                t.manual_seed(self.spec['seed'])
                if 'tiny' in self.spec['system']:
                    self.model = W.make_tiny(self.spec['system']['tiny'],
                                             self.ds)
                else:
                    self.model = W.make_model(self.spec['system']['model'],
                                              self.ds)
                return self.outcome('again')
            if op['op'] == 'reload':
                if 'tiny' not in self.spec['system']:
                    self.model = type(self.model).from_results_dict(
                        self.model.save_results())
                return self.outcome('reload')
            self.op = op
            self.gen = S.start(self.model, self.ds, op, op['thread'])
        try:
            loss = next(self.gen)
            return self.outcome('epoch', loss)
        except StopIteration:
            self.gen = None
            return self.outcome('optimized')
        except Exception as e:
            if self.op['opt'] != 'lbfgs':
                raise
            # it diverged
            self.gen = None
            self.done = True
            return ['failed', type(e).__name__]

    def outcome(self, what, loss=None):
        snap = S.snapshot(self.model)
        return [what, None if loss is None else float(loss), snap]


def read(job, what, run, where):
    """Operations which only read"""
    if job.model is None:
        return
    model, ds = job.model, job.ds
    rng = t.get_rng_state(), str(np.random.get_state())
    py = random.getstate()
    if what == 'inspect':
        model.inspect(ds)
    elif what == 'plots':
        model.inspect(ds, replot_all=True)
        model.plot_loss_history()
    elif what == 'report':
        str(model.report())
    elif what == 'save':
        path = os.path.join(run.scratch(), 'file')
        if 'tiny' in job.spec['system']:
            model.save_results()
        else:
            model.save_to_h5(path)
    elif what == 'load':
        if 'tiny' not in job.spec['system']:
            results = model.save_results()
            before = t.get_rng_state()
            type(model).from_results_dict(results)
            # setting up a model may use random numbers
            t.set_rng_state(before)
    elif what == 'predict':
        with t.no_grad():
            inputs, _ = ds[[0]]
            model.forward(*inputs)
    elif what == 'compare':
        if 'tiny' not in job.spec['system']:
            model.compare(ds)
    elif what == 'dataset':
        ds.inspect()
    elif what == 'split':
        ds.split()
    elif what == 'copy':
        path = os.path.join(run.scratch(), 'copy.cxi')
        if not getattr(ds, 'bad', None):
            ds.to_cxi(path)
            type(ds).from_cxi(path)
    elif what == 'close':
        plt.close('all')
    now = t.get_rng_state(), str(np.random.get_state())
    run.check(t.equal(now[0], rng[0]) and now[1] == rng[1]
              and random.getstate() == py, 'reading used random numbers',
              where)
    run.probe('read:' + what)


class Trouble(Exception):
    pass


def noise(what, seed, run, where):
    """Other things which happen in the same program"""
    rnd = random.Random(seed)
    if what == 'rng':
        t.manual_seed(seed)
        t.rand(rnd.randint(1, 50))
        np.random.seed(seed)
        random.seed(seed)
        return
    if what == 'rc':
        fig = plt.figure()
        fig.add_subplot().imshow([[0, 1]], cmap='gray')
        return
    spec = S.gen_system(rnd, .3, n=4)
    model, ds = S.make_system(spec)
    call = S.gen_call(rnd, spec, rnd.choice(['adam', 'sgd', 'lbfgs']), 3)
    thread = rnd.random() < .5
    if what == 'disk':
        if 'tiny' in spec:
            return
        with vfs.disk() as d:
            try:
                model.save_to_h5(os.path.join(run.scratch(), 'no', 'where'))
            except OSError:
                run.probe('fault:disk_error')
        return
    if what == 'checkpoint':
        if 'tiny' in spec:
            return
        stem = os.path.join(run.scratch(), 'check')
        # Jobs with checkpoints leave through exit(), which closes it
        stdin, sys.stdin = sys.stdin, io.StringIO()
        for i in range(rnd.randint(1, 2)):
            model.use_checkpoints(i, stem)
            try:
                list(S.start(model, ds, call, thread))
                model.checkpoint()
            except SystemExit:
                run.probe('jobs with checkpoints')
            except Exception:
                if call['opt'] != 'lbfgs':
                    raise
                break
            finally:
                sys.stdin = stdin
            model, ds = S.make_system(spec)
            stdin, sys.stdin = sys.stdin, io.StringIO()
        sys.stdin = stdin
        return
    if what == 'bad_call':
        for kw in ({'nonsense': 1}, {'batch_size': 'x'}):
            try:
                list(S.start(model, ds, dict(call, kw={**call['kw'], **kw}),
                             thread))
            except Exception:
                run.probe('fault:bad_call')
        return
    if what in ('failing', 'interrupted'):
        count = [rnd.randint(0, 5)]
        real = model.interaction

        def interaction(*args):
            count[0] -= 1
            if count[0] < 0:
                run.probe('fault:exception_in_model')
                raise Trouble('injected') if what == 'failing' \
                    else KeyboardInterrupt()
            return real(*args)
        model.interaction = interaction
        try:
            for loss in S.start(model, ds, call, thread):
                pass
        except (Trouble, KeyboardInterrupt):
            pass
        except Exception:
            if call['opt'] != 'lbfgs':
                raise
        return
    if what == 'handler':
        # Something which the program does when a figure is drawn goes wrong
        fig = plt.figure()
        count = [rnd.randint(0, 3)]

        def flush_events():
            count[0] -= 1
            if count[0] < 0:
                run.probe('fault:exception_in_figure')
                raise kind('injected')
        kind = rnd.choice([Trouble, KeyboardInterrupt])
        fig.canvas.flush_events = flush_events
        try:
            list(S.start(model, ds, call, True))
        except (Trouble, KeyboardInterrupt):
            pass
        except Exception:
            if call['opt'] != 'lbfgs':
                raise
        plt.close(fig)
        return
    gen = S.start(model, ds, call, thread)
    try:
        for i in range(rnd.randint(0, 2)):
            next(gen, None)
    except Exception:
        if call['opt'] != 'lbfgs':
            raise
        return
    if what == 'abandoned':
        gen.close()
        run.probe('fault:abandoned')
    else:
        try:
            list(gen)
        except Exception:
            if call['opt'] != 'lbfgs':
                raise


def settings():
    """Global settings of Python and the libraries, which nothing here is
    supposed to change"""
    from .. import common
    return {**common.library_settings(),
            'ctrl-c': signal.getsignal(signal.SIGINT),
            'stdin': id(sys.stdin), 'stdin closed': sys.stdin.closed,
            'excepthook': (sys.excepthook, threading.excepthook)}


def same_outcome(a, b):
    if len(a) != len(b) or a[0] != b[0]:
        return 'ends differently: %s / %s' % (a[:2], b[:2])
    if len(a) == 2:
        return '' if a == b else '%s / %s' % (a, b)
    if (a[1] is None) != (b[1] is None) or a[1] is not None \
            and not W.same_float(a[1], b[1]):
        return 'loss %s instead of %s' % (a[1], b[1])
    return '; '.join(S.differences(a[2], b[2]))


def on_its_own(spec, number):
    from .. import common
    common.reset()
    run = common.Run()
    try:
        job = Job(spec, run, number)
        with run.sim({}, trace=False), S.quiet():
            while job.step():
                pass
    except SimHang as e:
        return 'hang', str(e)
    finally:
        run.close()
    return 'done', job.outcomes


def run(sc, run):
    from .. import common
    # Each of the jobs in a program of its own
    alone = []
    for k, spec in enumerate(sc['jobs']):
        run.tags.append('model:' + S.kind_of(spec['system']))
        try:
            how, result = common.forked(lambda: on_its_own(spec, k))
        except common.Forked as e:
            if not e.cdtools:
                raise
            how, result = 'exception', str(e)
        if how != 'done':
            run.bad(how, 'job %d on its own: %s' % (k, result))
            return
        alone.append(result)
    common.reset()
    rnd = random.Random(sc['plan_seed'])
    plan = {'pre': sorted([rnd.randint(1, 20000), rnd.randint(0, 3)]
                          for _ in range(sc['pre'])),
            'wall0': rnd.choice([1.7e9, 4e9])}
    datasets = {}
    jobs = [Job(spec, run, k, datasets) for k, spec in enumerate(sc['jobs'])]
    order = list(sc['order'])
    switches = 0
    last = None
    history = []
    with run.sim(plan), S.quiet():
        before = settings()
        left = common.LEFT_BEHIND or common.changes(common.AT_FIRST, before)
        run.check(not left, 'global settings changed',
                  lambda: '%s, once a reconstruction and an inspection of each '
                  'model have been done' % sorted(left))
        while True:
            if order:
                what = order.pop(0)
            else:
                left = [k for k, j in enumerate(jobs) if not j.done]
                if not left:
                    break
                what = ['job', left[0]]
            history.append(what)
            where = 'after %s' % (history[-12:],)
            if what[0] == 'read':
                read(jobs[what[1]], what[2], run, where)
            elif what[0] == 'noise':
                noise(what[1], what[2], run, where)
                run.probe('noise:' + what[1])
            else:
                k = what[1]
                job = jobs[k]
                if not job.step():
                    continue
                switches += last is not None and last != k
                last = k
                i = len(job.outcomes) - 1
                if i >= len(alone[k]):
                    run.bad('job goes on', 'job %d: %s; %s' % (
                        k, job.outcomes[-1][:2], where))
                    break
                d = same_outcome(job.outcomes[i], alone[k][i])
                run.check(not d, 'depends on the rest of the program',
                          lambda: 'step %d (%s) of job %d (%s): %s; %s' % (
                              i, job.outcomes[i][0], k,
                              S.kind_of(job.spec['system']), d[:300], where))
            now = settings()
            run.check(now == before, 'global settings changed',
                      lambda: '%s; %s' % (common.changes(now, before), where))
            if run.violations:
                break
        for job in jobs:
            if job.gen is not None:
                job.gen.close()
    run.nontrivial = switches > 0 or len(history) > len(alone[0])
    run.probe('switched between jobs', switches)
    run.note(alone and [len(a) for a in alone])
    for job in jobs:
        if job.model is not None:
            run.note_state(W.state(job.model))
