"""A model which is saved and loaded again, at any point of its life, behaves
like one which never was"""
import os
import numpy as np
import torch as t
from matplotlib import pyplot as plt
from cdtools.tools.data import h5_to_nested_dict
from .. import session as S, vfs, world as W


def generate(rnd):
    sys = S.gen_system(rnd, 0., n=rnd.randint(4, 6))
    first = S.gen_call(rnd, sys)
    ops = []
    for i in range(rnd.randint(2, 6)):
        if rnd.random() < (.1 if i else .3):
            ops.append({'op': 'assign', 'seed': rnd.randrange(10**6)})
        u = rnd.random()
        if u < .4:
            ops.append({'op': 'reload', 'how': rnd.choice(
                ['memory', 'h5', 'h5', 'path', 'twice', 'checkpoint']),
                'args': rnd.random() < .3})
        elif u < .8:
            call = S.gen_call(rnd, sys, max_iter=2)
            call['op'] = 'optimize'
            call['thread'] = rnd.random() < .3
            call.pop('subset', None)
            if first.get('subset') is not None:
                call['subset'] = first['subset']
            ops.append(call)
        elif u < .85:
            ops.append({'op': 'tidy'})
        elif u < .93:
            ops.append({'op': 'frozen'})
        else:
            ops.append({'op': 'inspect'})
    if not any(op['op'] == 'reload' for op in ops):
        ops.insert(rnd.randrange(len(ops) + 1), {
            'op': 'reload', 'how': rnd.choice(['memory', 'h5']),
            'args': False})
    return {'system': sys, 'ops': ops, 'seed': rnd.randrange(10**6),
            'plan': {}}


def reload(sc, run, model, ds, op, make):
    cls = W.CLASSES[S.kind_of(sc['system'])]
    args = [ds] if op['args'] else []
    how = op['how']
    if how == 'memory':
        return cls.from_results_dict(model.save_results(*args))
    path = os.path.join(run.scratch(), 'results')
    if how == 'checkpoint':
        model.save_checkpoint(*args, checkpoint_file=path)
        fresh, _ = make()
        fresh.load_checkpoint(path)
        return fresh
    model.save_to_h5(path, *args)
    if how == 'path':
        d = h5_to_nested_dict(path)
        return cls.from_results_dict(d)
    again = cls.from_results_h5(path)
    if how == 'twice':
        again.save_to_h5(path)
        again = cls.from_results_h5(path)
    return again


def patterns(model, ds, rpi):
    """What the model predicts for the whole dataset"""
    out = []
    with t.no_grad():
        for i in ([[0], [len(ds) - 1]] if rpi else [list(range(len(ds)))]):
            inputs, _ = ds[i]
            out.append(model.forward(*inputs).detach().clone())
    return out


def figures(model, ds):
    plt.close('all')
    model.inspect(ds, replot_all=True)
    names = plt.get_figlabels()
    plt.close('all')
    return names


def run(sc, run):
    sys = sc['system']
    kind = S.kind_of(sys)
    model, ds = S.make_system(sys)
    twin, ds2 = S.make_system(sys)
    run.tags.append('model:' + kind)
    reloads = 0
    run.nontrivial = True
    for oi, op in enumerate(sc['ops']):
        where = 'operation %d (%s) of %s' % (oi, op, kind)
        if op['op'] == 'reload':
            run.tags.append('reload:' + op['how'])
            with vfs.disk():
                model = reload(sc, run, model, ds, op,
                               lambda: S.make_system(sys))
            reloads += 1
        elif op['op'] == 'optimize':
            ends = []
            for m, d in ((model, ds), (twin, ds2)):
                t.manual_seed(sc['seed'] + oi)
                with run.sim({}, trace=False), S.quiet():
                    try:
                        ends.append([float(x) for x in S.start(
                            m, d, op, op['thread'])])
                    except Exception as e:
                        if op['opt'] != 'lbfgs':
                            raise
                        ends.append(repr(e))
            a, b = ends
            if isinstance(a, str) or isinstance(b, str):
                run.check(a == b, 'ends differently', '%s / %s; %s' % (
                    a, b, where))
                return
            ok = len(a) == len(b) and all(
                W.same_float(x, y) or abs(x - y) <= 2e-5 * abs(y)
                for x, y in zip(a, b))
            run.check(ok, 'losses differ', '%s after reloading, %s without; '
                      '%s' % (a, b, where))
            run.probe('optimized after %d reloads' % min(reloads, 2))
        elif op['op'] == 'tidy':
            if not hasattr(twin, 'tidy_probes'):
                continue
            for m in (model, twin):
                m.tidy_probes()
                # The layout in memory affects rounding, but isn't saved
                for p in m.parameters():
                    p.data = p.data.resolve_conj().contiguous().clone(
                        memory_format=t.contiguous_format)
        elif op['op'] == 'assign':
            for m in (model, twin):
                W.assign(m, op['seed'])
        elif op['op'] == 'frozen':
            # what is going to be optimized
            a, b = ({k: p.requires_grad for k, p in m.named_parameters()}
                    for m in (model, twin))
            run.check(a == b, 'optimized parameters differ', '%s / %s; %s' % (
                a, b, where))
        else:
            with run.sim({}, trace=False):
                a, b = figures(model, ds), figures(twin, ds2)
            run.check(a == b, 'figures differ', '%s / %s; %s' % (a, b, where))
        compare(run, model, twin, ds, kind, where)
        if run.violations:
            return
    run.note_state(W.state(model))


def compare(run, model, twin, ds, kind, where):
    a, b = S.snapshot(model), S.snapshot(twin)
    d = W.diff_state(a['state'], b['state'])
    run.check(not d, 'state differs', '%s; %s' % (d, where))
    run.check(a['epoch'] == b['epoch'] and
              len(a['losses']) == len(b['losses']), 'records differ',
              'epoch %s / %s, losses %s / %s; %s' % (
                  a['epoch'], b['epoch'], a['losses'], b['losses'], where))
    ok = all(W.same_float(x, y) or abs(x - y) <= 2e-5 * abs(y)
             for x, y in zip(a['losses'], b['losses']))
    run.check(ok, 'loss history differs', '%s / %s; %s' % (
        a['losses'], b['losses'], where))
    la, lb = (S.epoch_lines(x['history']) for x in (a, b))
    run.check(len(la) == len(lb) and len(a['history'].split('\n'))
              == len(b['history'].split('\n')), 'training history differs',
              '%r / %r; %s' % (a['history'], b['history'], where))
    ra, rb = model.save_results(), twin.save_results()
    run.check(set(ra) == set(rb), 'results differ', '%s; %s' % (
        sorted(set(ra) ^ set(rb)), where))
    for k in set(ra) & set(rb):
        if isinstance(ra[k], str) and 'history' not in k:
            run.check(ra[k] == rb[k], 'results differ', '%s: %r / %r; %s' % (
                k, ra[k], rb[k], where))
    if d:
        return
    pa, pb = (patterns(m, ds, kind == 'rpi') for m in (model, twin))
    ok = all(W.same_tensor(x, y) for x, y in zip(pa, pb))
    run.check(ok, 'predictions differ', lambda: '%s; %s' % (
        [float(t.max(t.abs(x - y))) if x.shape == y.shape
         else (x.shape, y.shape) for x, y in zip(pa, pb)], where))
    run.probe('predictions compared')
