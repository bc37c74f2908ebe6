"""Results are saved when a script ends or fails, whenever that happens"""
import os
import random
import h5py
import numpy as np
import torch as t
from cdtools.tools.data import h5_to_nested_dict
from .. import session as S, vfs, world as W
from ..common import Run, random_plan, sample_points
from ..faults import EXCEPTIONS, Faults, FaultyDataset


def generate(rnd):
    sys = S.gen_system(rnd, tiny=.35, n=rnd.randint(4, 6))
    calls = []
    for _ in range(rnd.choice([1, 1, 2])):
        call = S.gen_call(rnd, sys, max_iter=3)
        call['thread'] = rnd.random() < .7
        calls.append(call)
    if S.kind_of(sys) == 'rpi':
        for c in calls:
            c['subset'] = calls[0]['subset']
    sc = {'system': sys, 'calls': calls, 'seed': rnd.randrange(10**6),
          'manager': rnd.choice(['save_on_exit', 'save_on_exception']),
          'fault': rnd.choice(['none', 'body', 'body', 'dataset', 'dataset',
                               'ctrl_c', 'ctrl_c', 'ctrl_c', 'break']),
          'exc': rnd.choice(sorted(EXCEPTIONS)),
          'old': rnd.random() < .4, 'args': rnd.random() < .3,
          'other': rnd.random() < .5}
    if rnd.random() < .15:
        # the disk can't be written to, once
        sc['disk'] = [['open', rnd.choice([1, 1, 2]),
                       rnd.choice(['ENOSPC', 'EIO', 'EDQUOT']),
                       rnd.random() < .5]]
    return sc


def session(sc, run, plan, dirname, record=None):
    sys = sc['system']
    ds = W.make_dataset(sys['data'], FaultyDataset)
    faults = ds.faults = Faults(sc.get('raise', []))
    model = W.make_tiny(sys['tiny'], ds) if 'tiny' in sys \
        else W.make_model(sys['model'], ds)
    t.manual_seed(sc['seed'])
    out = {'model': model, 'ds': ds, 'faults': faults, 'exc': None,
           'entered': False, 'finished': False, 'body': None, 'epochs': 0}
    normal = os.path.join(dirname, 'normal.h5')
    other = os.path.join(dirname, 'exception.h5')
    for path in (normal, other):
        if sc['old']:
            with h5py.File(path, 'w') as f:
                f['old'] = 1
    args = [ds] if sc['args'] and 'tiny' not in sys else []
    kw = {}
    if sc['manager'] == 'save_on_exit' and sc['other']:
        kw['exception_filename'] = other
    with run.sim(plan or {}, trace=record is not None or bool(plan),
                 record=record) as sim, S.quiet(), \
            vfs.disk(sc.get('disk', [])) as disk:
        faults.armed = True
        try:
            with getattr(model, sc['manager'])(normal, *args, **kw):
                out['entered'] = True
                for call in sc['calls']:
                    gen = S.start(model, ds, call, call['thread'])
                    for loss in gen:
                        out['epochs'] += 1
                        if out['epochs'] == sc.get('at'):
                            if sc['fault'] == 'break':
                                break
                            out['body'] = EXCEPTIONS[sc['exc']]()
                            raise out['body']
                    # Otherwise, it would depend on the garbage collector
                    gen.close()
                out['finished'] = True
        except BaseException as e:
            if type(e).__name__ in ('SimHang', 'SimAbort'):
                raise
            out['exc'] = e
        sim.ctrl_c = set()
        sim.main.pending = None
        faults.armed = False
        sim.let_others_run()
        out['sim'], out['disk'] = sim, disk
    out['normal'], out['other'] = normal, other
    return out


def materialise(sc):
    rnd = random.Random('plan/%d' % sc['seed'])
    record = []
    run = Run()
    clean = {k: v for k, v in sc.items() if k != 'disk'}
    try:
        trial = session(clean, run, {}, run.scratch(), record)
    finally:
        run.close()
    plan = random_plan(rnd, record, max_pre=15)
    if sc['fault'] == 'ctrl_c':
        plan['ctrl_c'] = sample_points(rnd, record, 1)
    elif sc['fault'] in ('body', 'break'):
        sc['at'] = rnd.randint(1, max(1, trial['epochs']))
    elif sc['fault'] == 'dataset':
        n = trial['faults'].counts.get('dataset', 1)
        sc['raise'] = [['dataset', rnd.randint(1, n), sc['exc']]]
    sc['plan'] = plan
    return sc


def content(path):
    if not os.path.exists(path):
        return None
    try:
        return h5_to_nested_dict(path)
    except Exception as e:
        return {'unreadable': repr(e)}


def problems(d, model):
    """How a saved file differs from what the model is now"""
    if d is None:
        return ['no file']
    if 'unreadable' in d or 'old' in d:
        return [sorted(d)]
    out = []
    want = {k: v.numpy() for k, v in W.state(model).items()}
    got = d.get('state_dict', {})
    if set(want) != set(got):
        out.append('entries %s' % sorted(set(want) ^ set(got)))
    for k in sorted(set(want) & set(got)):
        a, b = np.asarray(got[k]), want[k]
        if a.shape != b.shape or a.dtype != b.dtype \
                or a.tobytes() != b.tobytes():
            out.append(k)
    losses = np.asarray(d.get('loss_history', []), dtype=float)
    if losses.tolist() != [float(x) for x in model.loss_history] \
            and not np.isnan(losses).any():
        out.append('loss_history')
    if int(d.get('epoch', -1)) != model.epoch:
        out.append('epoch')
    if d.get('training_history') != model.training_history:
        out.append('training_history')
    return out


def run(sc, run):
    got = session(sc, run, sc['plan'], run.scratch())
    model, sim, disk = got['model'], got['sim'], got['disk']
    exc, injected = got['exc'], list(got['faults'].raised)
    run.tags += [sc['manager'], 'model:' + S.kind_of(sc['system'])]
    for e in injected:
        run.probe('fault:raise_' + type(e).__name__)
    if got['body'] is not None:
        run.probe('fault:body_raises_' + type(got['body']).__name__)
    for k, v in disk.fired.items():
        run.probe('fault:' + k, v)
    ctrl_c = sim.fired.get('ctrl_c', 0)
    failed = bool(injected or got['body'] is not None or ctrl_c)
    where = '%s(exception_filename=%s), fault %s, %s; ended with %r' % (
        sc['manager'], sc['other'], sc['fault'], disk.fired, exc)
    run.nontrivial = failed or bool(disk.fired)

    # ---- the exception
    if disk.fired:
        run.check(exc is not None, 'failed to save, silently', where)
    elif exc is None:
        run.check(not (injected or got['body'] is not None),
                  'exception swallowed', where)
    elif not failed:
        run.check(any(c['opt'] == 'lbfgs' for c in sc['calls']),
                  'unexpected exception', where)
    else:
        ok = exc is got['body'] or any(exc is e for e in injected) \
            or ctrl_c and isinstance(exc, KeyboardInterrupt)
        run.check(ok, 'wrong exception', where)

    # ---- the files
    if exc is None and sc['manager'] == 'save_on_exit':
        expect = got['normal']
    elif exc is None:
        expect = None
    else:
        expect = got['other'] if sc['manager'] == 'save_on_exit' \
            and sc['other'] else got['normal']
    # A Ctrl-C just outside of the context is not the context's business
    optional = ctrl_c and (not got['entered'] or got['finished']
                           and sc['manager'] == 'save_on_exception')
    optional = optional or disk.fired
    if expect is not None:
        p = problems(content(expect), model)
        if not (p and optional):
            run.check(not p, 'saved results wrong', '%s: %s' % (p, where))
            run.probe('saved results compared')
    for path in (got['normal'], got['other']):
        if path == expect or disk.fired:
            continue
        c = content(path)
        touched = c is not None and not (sc['old'] and list(c) == ['old'])
        if touched and ctrl_c and got['finished']:
            # it was saved once before the Ctrl-C
            continue
        run.check(not touched, 'other file touched', '%s: %s' % (
            os.path.basename(path), where))
        if sc['old']:
            run.check(c is not None, 'old file removed', where)
    run.note_state(W.state(model))
    run.note(type(exc).__name__, sorted(disk.fired))
