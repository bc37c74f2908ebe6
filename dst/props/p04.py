"""The loss which is reported for an epoch is the documented metric, whatever
happened before"""
import numpy as np
import torch as t
from .. import session as S, world as W
from ..faults import Faults, FaultyDataset
from ..record import Record, instrument


def generate(rnd):
    sys = S.gen_system(rnd, tiny=.25, n=rnd.randint(4, 8))
    ops = []
    rpi = S.kind_of(sys) == 'rpi'
    for _ in range(rnd.randint(1, 4)):
        u = rnd.random()
        if u < .15 and ops:
            ops.append({'op': 'reload', 'h5': rnd.random() < .3})
            continue
        call = S.gen_call(rnd, sys, rnd.choice(['adam', 'adam', 'sgd']),
                          max_iter=2)
        call['op'] = 'optimize'
        call['thread'] = rnd.random() < .5
        call['kw'].pop('amsgrad', None)
        if call['opt'] == 'adam' and rnd.random() < .3:
            call['kw']['lr'] = 0.
        if u < .5:
            call['raise'] = [['dataset', rnd.randint(1, 12), 'OSError']]
        ops.append(call)
    if rpi:
        for op in ops:
            op['subset'] = ops[0].get('subset', [0])
    return {'system': sys, 'ops': ops, 'seed': rnd.randrange(10**6),
            'plan': {}}


class Metric:
    """The documented metrics, in double precision"""

    def __init__(self, kind):
        self.kind = kind
        self.fixed = None

    def totals(self, patterns, mask):
        p = patterns[:, mask]
        if self.kind == 'poisson':
            # the best loss which could be reached, and how large the
            # contributions of noise are
            eps = 1e-6
            best = np.sum(p + eps - p * np.log(p + eps))
            return best, .5 * np.sum(p >= 1)
        return 0., p.size

    def raw(self, patterns, sims, mask):
        p, s = patterns[:, mask], sims[:, mask]
        if self.kind == 'amplitude':
            return np.sum((np.sqrt(p) - np.sqrt(s))**2)
        if self.kind == 'intensity':
            return np.sum((p - s)**2)
        if self.kind == 'poisson':
            eps = 1e-6
            return np.sum(s + eps - p * np.log(s + eps))
        if self.kind == 'tiny':
            return np.sum((np.sqrt(p + 1e-3) - np.sqrt(s + 1e-3))**2)


def run(sc, run):
    sys = sc['system']
    ds = W.make_dataset(sys['data'], FaultyDataset)
    kind = S.kind_of(sys)
    if kind == 'tiny':
        model = W.make_tiny(sys['tiny'], ds)
        metric = 'tiny'
        normalized = sys['tiny']['normalizer'] is not None
    else:
        model = W.make_model(sys['model'], ds)
        metric = sys['model']['kw'].get('loss', 'amplitude mse').split()[0]
        normalized = True
    run.tags += ['model:' + kind, 'loss:' + metric]
    metric = Metric(metric)
    all_pats = ds.patterns.numpy().astype(np.float64)
    use_mask = sys['tiny']['mask'] if kind == 'tiny' else kind != 'simple'
    mask = ds.mask.numpy().astype(bool) if use_mask \
        else np.ones(all_pats.shape[1:], bool)
    rec = Record()
    instrument(model, rec)
    t.manual_seed(sc['seed'])
    run.nontrivial = True
    for oi, op in enumerate(sc['ops']):
        where = 'operation %d (%s)' % (oi, op)
        if op['op'] == 'reload':
            if kind == 'tiny':
                continue
            run.probe('reloads')
            cls = W.CLASSES[kind]
            if op['h5']:
                path = run.scratch() + '/r.h5'
                model.save_to_h5(path)
                model = cls.from_results_h5(path)
            else:
                model = cls.from_results_dict(model.save_results())
            instrument(model, rec)
            metric.fixed = None
            continue
        faults = Faults(op.get('raise', []))
        faults.armed = True
        ds.faults = faults
        epochs = []
        recorded = len(model.loss_history)
        with run.sim({}, trace=False), S.quiet():
            rec.start()
            try:
                for loss in S.start(model, ds, op, op['thread']):
                    epochs.append((float(loss), rec.evals))
                    rec.start()
            except OSError:
                if not faults.raised:
                    raise
                run.probe('fault:read_error')
        sel = S.selected(op, len(ds))
        for ei, (loss, evals) in enumerate(epochs):
            at = 'epoch %d of %s' % (ei, where)
            idx = [i for e in evals for i in e['index']]
            sims = [e['sim'].double().reshape(
                -1, *all_pats.shape[1:]) for e in evals]
            sims = t.cat(sims).numpy()
            pats = all_pats[idx]
            raw = metric.raw(pats, sims, mask)
            if normalized:
                if metric.fixed is None:
                    # taken from the first complete epoch
                    metric.fixed = metric.totals(all_pats[sel], mask)
                off, scale = metric.fixed
            else:
                off, scale = 0., 1.
            want = (raw - off) / scale
            tol = 1e-4 * abs(want) + 3e-6 * (abs(raw) + abs(off)) / scale
            if not (np.isfinite(want) and abs(raw) < 1e30):
                run.probe('not finite')
                continue
            run.probe('epochs checked')
            run.check(abs(loss - want) <= tol, 'reported loss',
                      'reported %r instead of %r; %s' % (loss, want, at))
            run.check(W.same_float(loss, model.loss_history[recorded + ei]),
                      'loss history', 'returned %r, recorded %r; %s' % (
                          loss, model.loss_history[recorded + ei], at))
        run.check(len(model.loss_history) == recorded + len(epochs),
                  'loss history length', where)
        check_report(run, model, epochs, where)
        run.note([e[0] for e in epochs])


def check_report(run, model, epochs, where):
    """The training history states the same losses"""
    lines = S.epoch_lines(model.training_history)
    run.check(len(lines) == len(model.loss_history), 'lines in the history',
              '%d lines for %d epochs; %s' % (
                  len(lines), len(model.loss_history), where))
    for i, (line, loss) in enumerate(zip(lines, model.loss_history)):
        try:
            n = int(line.split()[1])
            said = float(line.split('loss')[1])
        except (IndexError, ValueError):
            continue      # the wording is not part of the property
        run.check(n == i + 1, 'number of the epoch',
                  '%r is line %d; %s' % (line, i + 1, where))
        run.check(W.same_float(said, loss) or
                  abs(said - float(loss)) <= 2e-5 * abs(float(loss)),
                  'loss in the training history', '%r, but the loss was %r; '
                  '%s' % (line, float(loss), where))
