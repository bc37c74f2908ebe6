"""Reconstructions which are split into a chain of jobs with checkpoints, which
crash and lose files, end up where an uninterrupted one does"""
import os
import torch as t
from .. import session as S, world as W
from ..faults import Faults, FaultyDataset
from ..record import Record, instrument

CRASHES = ['Fatal', 'KeyboardInterrupt', 'OSError', 'SystemExit',
           'RuntimeError', 'MemoryError']


def generate(rnd):
    sys = S.gen_system(rnd, tiny=.5, n=rnd.randint(4, 7))
    calls, recs = [], []
    first = S.gen_call(rnd, sys)
    subset = first.get('subset')
    for _ in range(rnd.randint(1, 3)):
        # Only the state of the optimizer in use is a part of a checkpoint
        if calls and calls[-1]['via'] != 'method' and rnd.random() < .5:
            ri = calls[-1]['rec']
            opt, old = calls[recs[ri]]['opt'], calls[recs[ri]]
            call = S.gen_call(rnd, sys, opt, 4)
            for key in ('amsgrad', 'history_size'):
                call['kw'].pop(key, None)
                if key in old['kw']:
                    call['kw'][key] = old['kw'][key]
        else:
            ri = len(recs)
            recs.append(len(calls))
            call = S.gen_call(rnd, sys, None, 4)
        if call['via'] == 'method':
            ri = len(recs)
            recs.append(len(calls))
        call['rec'] = ri
        call['thread'] = rnd.random() < .4
        call.pop('subset', None)
        if subset is not None:
            call['subset'] = subset
        if call['opt'] == 'adam' and S.kind_of(sys) in (
                'tiny', 'simple', 'rpi') and rnd.random() < .4:
            # The loss stagnates for long enough to lower the learning rate
            call['iterations'] = rnd.randint(13, 30)
            call['kw'].update(schedule=True, lr=rnd.choice([.3, 1., 3.]),
                              batch_size=rnd.choice([3, sys['data']['n']]))
        its = call['iterations']
        # within the loop, after these epochs
        call['checkpoints'] = sorted(rnd.sample(
            range(its), rnd.choice([0, 1, 1, min(2, its)])))
        call['stop_after'] = rnd.randrange(1, its + 1) \
            if rnd.random() < .1 else None
        calls.append(call)
    for i, call in enumerate(calls):
        # A checkpoint between two calls of one reconstructor does not hold
        # the state of its optimizer, only that of the model
        later = [c['rec'] for c in calls[i + 1:] if c['via'] != 'method']
        if rnd.random() < .4 and not any(c['rec'] in later
                                         for c in calls[:i + 1]
                                         if c['via'] != 'method'):
            call['after'] = True
    k = sum(len([e for e in c['checkpoints']
                 if c['stop_after'] is None or e < c['stop_after']])
            + bool(c.get('after')) for c in calls)
    trouble = []
    for _ in range(rnd.choice([0, 1, 1, 2, 3])):
        job = rnd.randint(0, k)
        kind = rnd.choice(['crash', 'crash', 'torn', 'missing', 'rerun'])
        if kind == 'crash':
            trouble.append([job, 'crash', rnd.randint(1, 10),
                            rnd.choice(CRASHES)])
        elif kind == 'rerun' or job == 0:
            trouble.append([job, 'rerun'])
        else:
            trouble.append([job, kind, rnd.random()])
    return {'system': sys, 'calls': calls, 'seed': rnd.randrange(10**6),
            'trouble': trouble, 'args': rnd.choice([[], [], ['dataset']]),
            'plan': {}}


class Script:
    """What the user runs, once for each job"""

    def __init__(self, sc, job=None, stem=None, faults=()):
        sys = sc['system']
        self.sc, self.job = sc, job
        self.ds = W.make_dataset(sys['data'], FaultyDataset)
        self.ds.faults = Faults(faults)
        if 'tiny' in sys:
            self.model = W.make_tiny(sys['tiny'], self.ds)
        else:
            self.model = W.make_model(sys['model'], self.ds)
        self.rec = Record()
        instrument(self.model, self.rec)
        self.losses, self.skips = [], []
        self.torn = []
        if job is not None:
            self.model.use_checkpoints(job, stem)

    def reached_checkpoint(self, index):
        if self.job is not None:
            args = [self.ds] if self.sc['args'] else []
            if 'tiny' in self.sc['system']:
                args = []
            self.model.checkpoint(*args)
        t.manual_seed(self.sc['seed'] + 1000 + index)

    def main(self):
        sc, model, ds = self.sc, self.model, self.ds
        ds.faults.armed = True
        t.manual_seed(sc['seed'])
        recs, count = {}, 0
        for call in sc['calls']:
            r = None
            if call['via'] != 'method':
                if call['rec'] not in recs:
                    recs[call['rec']] = W.recon(
                        model, ds, call['opt'], call.get('subset'),
                        call.get('lr_factors'))
                r = recs[call['rec']]
            before = len(self.rec.evals)
            for i, loss in enumerate(S.start(model, ds, call, call['thread'],
                                             r)):
                self.losses.append(float(loss))
                self.skips.append([model.skip_computation(),
                                   len(self.rec.evals) - before,
                                   model.epoch])
                before = len(self.rec.evals)
                if i in call['checkpoints']:
                    self.reached_checkpoint(count)
                    count += 1
                if i + 1 == call['stop_after']:
                    break
            if call.get('after'):
                self.reached_checkpoint(count)
                count += 1
        return count


def attempt(run, sc, job, stem, faults=()):
    """Runs one job, and tells how it ended"""
    with run.sim({}, trace=False), S.quiet():
        script = Script(sc, job, stem, faults)
        try:
            script.main()
            script.end = None
        except SystemExit as e:
            script.end = e
        except BaseException as e:
            if type(e).__name__ in ('SimHang', 'SimAbort'):
                raise
            script.end = e
    return script


def tame(snap):
    return all(abs(x) < 1e15 for x in snap['losses']) and all(
        bool(t.isfinite(t.view_as_real(v) if v.is_complex() else v).all())
        for v in snap['state'].values())


def run(sc, run):
    base = attempt(run, sc, None, None)
    if base.end is not None:
        # optimizers may diverge
        run.check(any(c['opt'] == 'lbfgs' for c in sc['calls']),
                  'baseline failed', repr(base.end))
        return
    want = S.snapshot(base.model)
    if not tame(want):
        return
    stem = os.path.join(run.scratch(), 'ckpt')
    njobs = count_checkpoints(sc)
    run.tags.append('jobs:%d' % (njobs + 1))
    run.tags += ['optimizer:' + c['opt'] for c in sc['calls']]
    run.nontrivial = njobs > 0
    computed = 0
    final = None
    for job in range(njobs + 1):
        where = 'job %d of %d' % (job, njobs + 1)
        for tr in [x for x in sc['trouble'] if x[0] == job]:
            trouble(sc, run, tr, job, stem, base, want, where)
        script = attempt(run, sc, job, stem)
        verify(sc, run, script, job, njobs, base, want, where)
        computed += sum(1 for e in script.rec.evals)
        final = script
    # some things, such as L-BFGS with a line search, may depend on rounding
    run.check(computed == len(base.rec.evals), 'work repeated or lost',
              '%d evaluations in all jobs, %d without checkpoints' % (
                  computed, len(base.rec.evals)))
    run.note_state(W.state(final.model))
    run.note(final.losses, njobs)


def count_checkpoints(sc):
    k = 0
    for c in sc['calls']:
        k += len([e for e in c['checkpoints']
                  if c['stop_after'] is None or e < c['stop_after']])
        k += bool(c.get('after'))
    return k


def position(sc, k):
    """(number of epochs until the k-th checkpoint)"""
    n, seen = 0, 0
    for c in sc['calls']:
        its = c['stop_after'] or c['iterations']
        for i in range(its):
            n += 1
            if i in c['checkpoints']:
                seen += 1
                if seen == k:
                    return n
        if c.get('after'):
            seen += 1
            if seen == k:
                return n
    return n


def verify(sc, run, script, job, njobs, base, want, where):
    """A job which ran without trouble"""
    total = len(base.losses)
    lo = position(sc, job) if job > 0 else 0
    hi = position(sc, job + 1) if job < njobs else total
    end, model = script.end, script.model
    if job < njobs:
        if not run.check(type(end) is SystemExit, 'job did not stop',
                         '%s ended with %r' % (where, end), stop=True):
            return
        run.check(not getattr(end, 'code', None), 'exit status',
                  '%s ended with %r' % (where, end))
    else:
        run.check(end is None, 'last job failed', '%s ended with %r' % (
            where, end), stop=True)
    run.check(len(script.losses) == hi, 'epochs', '%s returned %d epochs '
              'instead of %d' % (where, len(script.losses), hi))
    for i, (skipping, evals, epoch) in enumerate(script.skips):
        run.check(epoch == base.skips[i][2], 'epoch number', 'epoch %d of %s '
                  'has number %s' % (i, where, epoch))
        if i < lo:
            run.check(evals == 0 and skipping, 'computed while skipping',
                      'epoch %d of %s: %d evaluations' % (i, where, evals))
        else:
            run.check(evals > 0 and not skipping, 'epoch skipped',
                      'epoch %d of %s' % (i, where))
    bad = [(i, a, b) for i, (a, b) in enumerate(zip(script.losses,
                                                    base.losses))
           if i >= lo and not close(a, b)]
    run.check(not bad, 'losses differ', '%s: (epoch, loss, loss without '
              'checkpoints) = %s' % (where, bad))
    got = S.snapshot(model)
    run.check(len(got['losses']) == hi == got['epoch'], 'records',
              '%s: %d losses and epoch %d instead of %d' % (
                  where, len(got['losses']), got['epoch'], hi))
    bad = [(i, a, b) for i, (a, b) in enumerate(zip(got['losses'],
                                                    want['losses']))
           if not close(a, b)]
    run.check(not bad, 'loss history differs', '%s: %s' % (where, bad))
    lines, wlines = plain_lines(got['history']), plain_lines(want['history'])
    n = len(wlines) if job == njobs else len(lines)
    run.check(lines == wlines[:n] and sum(
        x.startswith('Epoch') for x in lines) == hi,
        'training history differs', '%s: %s' % (where, lines))
    if job == njobs:
        d = W.diff_state(got['state'], want['state'])
        run.check(not d, 'result differs', lambda: '%s: %s %s' % (
            where, d, W.close_state(got['state'], want['state'], 0.)))
        run.probe('chains compared')


def plain_lines(text):
    """The lines of the training history, without durations and losses"""
    return [' '.join(x.split()[:2]) if x.startswith('Epoch') else x
            for x in str(text).split('\n') if x.strip()]


def close(a, b):
    return W.same_float(a, b) or abs(a - b) <= 2e-5 * abs(b)


def trouble(sc, run, tr, job, stem, base, want, where):
    """Something goes wrong with a job, and it is started again afterwards"""
    kind = tr[1]
    before = '%s_%d.pt' % (stem, job - 1)
    if kind == 'rerun':
        # The user starts a job again which had already finished. It comes
        # to the same result.
        for j in range(max(0, job - 1), job):
            script = attempt(run, sc, j, stem)
            verify(sc, run, script, j, count_checkpoints(sc), base, want,
                   'job %d, started again' % j)
        run.probe('fault:job_started_again')
    elif kind == 'crash':
        script = attempt(run, sc, job, stem, [['dataset', tr[2], tr[3]]])
        if script.ds.faults.raised:
            run.probe('fault:job_crashed')
            run.check(type(script.end) is type(script.ds.faults.raised[0]),
                      'crash hidden', '%s ended with %r' % (
                          where, script.end))
    elif kind == 'missing':
        content = open(before, 'rb').read()
        os.remove(before)
        script = attempt(run, sc, job, stem)
        run.probe('fault:checkpoint_missing')
        run.check(script.end is not None
                  and type(script.end) is not SystemExit,
                  'missing checkpoint ignored', '%s ended with %r' % (
                      where, script.end))
        with open(before, 'wb') as f:
            f.write(content)
    elif kind == 'torn':
        # The job before was killed while it wrote its checkpoint
        content = open(before, 'rb').read()
        with open(before, 'wb') as f:
            f.write(content[:int(tr[2] * len(content))])
        script = attempt(run, sc, job, stem)
        run.probe('fault:checkpoint_torn')
        run.check(script.end is not None
                  and type(script.end) is not SystemExit,
                  'torn checkpoint accepted', '%s ended with %r' % (
                      where, script.end))
        if job > 0:
            again = attempt(run, sc, job - 1, stem)
            verify(sc, run, again, job - 1, count_checkpoints(sc), base,
                   want, 'job %d, started again' % (job - 1))
