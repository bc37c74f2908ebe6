"""Whatever goes wrong during a reconstruction reaches the caller, nothing is
left running, and the model stays usable"""
import random
import sys
import torch as t
import matplotlib
from matplotlib import pyplot as plt
from .. import session as S, world as W
from ..common import Run, random_plan, sample_points
from ..faults import Faults, FaultyModel, FaultyDataset, EXCEPTIONS


def generate(rnd):
    sys = S.gen_system(rnd, tiny=.65)
    call = S.gen_call(rnd, sys, max_iter=3)
    call['via'] = 'reconstructor'
    if rnd.random() < .6 and call['opt'] != 'adam':
        call = S.gen_call(rnd, sys, 'adam', max_iter=3)
        call['via'] = 'reconstructor'
    kinds = ['ctrl_c'] * 5 + ['dataset'] * 2 + ['thread_fail', 'break', 'ui']
    if 'tiny' in sys:
        kinds += ['interaction', 'loss', 'measurement', 'regularizer'] * 2
    faults = [rnd.choice(kinds)]
    if rnd.random() < .15:
        faults.append(rnd.choice(kinds))
    if rnd.random() < .05:
        faults = []
    return {'system': sys, 'call': call, 'thread': rnd.random() < .8,
            'faults': faults, 'figures': rnd.choice([0, 1, 2])
            if 'ui' not in faults else rnd.choice([1, 2]),
            'before': rnd.choice([0, 0, 0, 1, 2]),
            'seed': rnd.randrange(10**6)}


def prepare(sc):
    sys = sc['system']
    ds = W.make_dataset(sys['data'], FaultyDataset)
    if 'tiny' in sys:
        model = W.make_tiny(sys['tiny'], ds, FaultyModel)
    else:
        model = W.make_model(sys['model'], ds)
    faults = Faults(sc.get('raise', []))
    ds.faults = faults
    if 'tiny' in sys:
        model.faults = faults
    return model, ds, faults


def session(sc, run, plan, record=None, steps=None):
    """Runs the calls until something goes wrong"""
    model, ds, faults = prepare(sc)
    t.manual_seed(sc['seed'])
    call = sc['call']
    rec = W.recon(model, ds, call['opt'], call.get('subset'),
                  call.get('lr_factors'))
    out = {'model': model, 'ds': ds, 'faults': faults, 'yielded': [],
           'exc': None, 'rec': rec}
    if steps is not None:
        # the states after each step of the optimizer
        rec.optimizer.register_step_post_hook(
            lambda *a: steps.append(W.state(model)))
    with run.sim(plan, trace=record is not None or plan is not None,
                 record=record, ui_actions=S.ui_actions(model, ds)) as sim, \
            S.quiet():
        for _ in range(sc['figures']):
            plt.figure()
        # Before the faults start: a healthy call
        if sc['before']:
            first = dict(call, iterations=sc['before'])
            trace, sim.trace = sim.trace, False
            held, sim.ctrl_c = sim.ctrl_c, set()
            ui, sim.ui = sim.ui, {}
            ts, sim.fail_starts = sim.fail_starts, set()
            out['before'] = [float(x) for x in S.start(
                model, ds, first, False, rec)]
            sim.trace, sim.ctrl_c, sim.ui = trace, held, ui
            sim.fail_starts = ts
        faults.armed = True
        gen = None
        try:
            gen = S.start(model, ds, call, sc['thread'], rec)
            for loss in gen:
                out['yielded'].append(float(loss))
                if len(out['yielded']) == sc.get('break_after'):
                    run.probe('fault:consumer_stops')
                    break
            if gen is not None and sc.get('break_after'):
                gen.close()
        except BaseException as e:
            if type(e).__name__ in ('SimHang', 'SimAbort'):
                raise
            out['exc'] = e
        faults.armed = False
        sim.ctrl_c = set()
        if sim.main.pending is not None:
            # A Ctrl-C which arrived just after everything was over
            sim.main.pending = None
            out['late'] = True
        out['alive'] = [task.name for task in sim.running()]
        sim.let_others_run()
        out['stuck'] = [task.name for task in sim.running()]
        out['sim'] = sim
    out['counts'] = dict(faults.counts)
    return out


def materialise(sc):
    rnd = random.Random('plan/%d' % sc['seed'])
    record = []
    trial = session(sc, Run(), {}, record)
    plt.close('all')
    plan = random_plan(rnd, record, max_pre=25)
    if sc['thread'] and sc['call']['opt'] != 'lbfgs' and rnd.random() < .12:
        # A slow computation: the caller waits for a long time
        plan['stalls'] = [[p, rnd.choice([3., 12., 40.])] for p in
                          sample_points(rnd, record, rnd.randint(1, 2), 1)]
        record = []
        session(sc, Run(), plan, record)
        plt.close('all')
    sc['raise'] = []
    for f in sc['faults']:
        if f == 'ctrl_c':
            plan['ctrl_c'] = sample_points(rnd, record, 1) \
                if rnd.random() < .7 else [rnd.randint(1, record[-1][0])]
        elif f == 'thread_fail':
            plan['thread_fail'] = [rnd.randint(1, sc['call']['iterations'])]
        elif f == 'break':
            sc['break_after'] = rnd.randint(1, sc['call']['iterations'])
        elif f == 'ui':
            plan['ui'] = [[rnd.randint(1, 6), 'fail']]
        else:
            n = trial['counts'].get(f, 0)
            if n:
                exc = rnd.choice(sorted(EXCEPTIONS))
                if f == 'dataset' and rnd.random() < .5:
                    exc = 'OSError'
                sc['raise'].append([f, rnd.randint(1, n), exc])
    sc['plan'] = plan
    return sc


def run(sc, run):
    before_rc = matplotlib.rcParams['figure.raise_window']
    got = session(sc, run, sc['plan'])
    model, faults, sim = got['model'], got['faults'], got['sim']
    call = sc['call']
    run.tags += ['model:' + S.kind_of(sc['system']),
                 'optimizer:' + call['opt'],
                 'thread:%s' % sc['thread']]
    for e in faults.raised:
        run.probe('fault:raise_' + type(e).__name__)
    injected = list(faults.raised)
    ctrl_c = sim.fired.get('ctrl_c', 0) and not got.get('late')
    ui_fail = sim.fired.get('ui_fail', 0)
    start_fail = sim.fired.get('thread_start_failure', 0)
    expected = bool(injected or ctrl_c or ui_fail or start_fail)
    run.nontrivial = expected or bool(sc.get('break_after'))
    exc = got['exc']
    where = 'thread=%s, faults %s, raised %s' % (
        sc['thread'], sim.fired, [repr(e) for e in injected])

    # ---- what the caller sees
    if exc is None:
        run.check(not expected, 'failure swallowed',
                  'optimize ended normally after %d epochs; %s'
                  % (len(got['yielded']), where))
        if not sc.get('break_after'):
            run.check(len(got['yielded']) == call['iterations'],
                      'epochs missing', 'yielded %d of %d'
                      % (len(got['yielded']), call['iterations']))
    else:
        ok = any(type(exc) is type(e) and str(exc) == str(e)
                 for e in injected)
        ok = ok or (ctrl_c and isinstance(exc, KeyboardInterrupt))
        ok = ok or (ui_fail and 'callback of the user' in str(exc))
        ok = ok or (start_fail and "can't start" in str(exc))
        # not an injected one: optimizers may diverge
        diverged = not expected and isinstance(exc, RuntimeError) \
            and call['opt'] == 'lbfgs'
        if not diverged:
            run.check(ok, 'wrong exception', 'got %s: %s; %s'
                      % (type(exc).__name__, exc, where))

    # ---- nothing is left running
    run.check(not got['stuck'], 'computation never ends', where)
    run.check(not got['alive'], 'still computing',
              '%s was running when control came back; %s'
              % (got['alive'], where))
    run.check(matplotlib.rcParams['figure.raise_window'] == before_rc,
              'plot settings changed', where)

    run.check(not sys.stdin.closed, 'standard input closed', where)

    # ---- the records are consistent
    base = sc['before']
    losses = [float(x) for x in model.loss_history]
    lines = S.epoch_lines(model.training_history)
    done = len(losses) - base
    y = got['yielded']
    run.check(len(y) <= done <= len(y) + 1, 'history length',
              '%d epochs were returned, %d recorded; %s'
              % (len(y), done, where))
    run.check(all(W.same_float(a, b) for a, b in zip(y, losses[base:])),
              'history differs', 'returned %s, recorded %s; %s'
              % (y, losses[base:], where))
    loose = not sc['thread'] and ctrl_c
    if loose:
        # Ctrl-C hits the bookkeeping itself
        run.check(len(losses) - 1 <= model.epoch <= len(losses)
                  and len(losses) - 1 <= len(lines) <= len(losses),
                  'records inconsistent', where)
    else:
        run.check(model.epoch == len(losses) == len(lines),
                  'records inconsistent',
                  'epoch %s, %d losses, %d lines in the history; %s'
                  % (model.epoch, len(losses), len(lines), where))
    state = W.state(model)
    run.note_state(state)
    run.note(y, type(exc).__name__)

    # ---- the parameters are the result of a whole number of steps
    if call['opt'] != 'lbfgs':
        clean = {k: v for k, v in sc.items()
                 if k not in ('raise', 'break_after')}
        clean['thread'], clean['figures'] = False, 0
        clean.pop('plan', None)
        steps = []
        ref = session(clean, Run(), None, steps=steps)
        if ref['exc'] is None:
            n = len(S.selected(call, sc['system']['data']['n']))
            bs = call['kw'].get('batch_size') or 1
            per = -(-n // bs)
            model0, _, _ = prepare(sc)
            states = [W.state(model0)] + steps
            lo = (base + done) * per
            hi = min((base + done + 1) * per, len(states) - 1)
            match = [j for j in range(lo, min(hi + 1, len(states)))
                     if not W.diff_state(state, states[j])]
            run.check(match, 'parameters torn',
                      lambda: 'the parameters are not those after any step '
                      'from %d to %d (differ from these in %s); %s' % (
                          lo, hi, W.diff_state(state, states[lo]), where))
            if match and match[0] > lo:
                run.probe('stopped within an epoch')
            run.check(all(W.same_float(a, b) for a, b in zip(
                losses, [float(x) for x in ref['model'].loss_history])),
                'losses wrong', lambda: 'recorded %s, undisturbed: %s; %s' % (
                    losses, ref['model'].loss_history, where))

    # ---- and the model is still usable
    if loose and model.epoch != len(losses):
        return
    resume(sc, run, got, state, done + base, where)


def resume(sc, run, got, state, epochs, where):
    """Goes on, and compares with a new model which has the same parameters"""
    model, ds, call = got['model'], got['ds'], sc['call']
    if not all(bool(t.isfinite(t.view_as_real(v) if v.is_complex() else v)
                    .all()) for v in state.values()):
        return
    fresh, ds2, _ = prepare(sc)
    fresh.load_state_dict(state)
    again = dict(call, iterations=2)
    losses = []
    for m, d in ((model, ds), (fresh, ds2)):
        t.manual_seed(sc['seed'] + 1)
        with run.sim({}, trace=False), S.quiet():
            try:
                losses.append([float(x) for x in S.start(
                    m, d, again, sc['thread'])])
            except Exception as e:
                losses.append('%s: %s' % (type(e).__name__, e))
    a, b = losses
    run.probe('resumed')
    if isinstance(a, str) or isinstance(b, str):
        run.check(a == b, 'cannot resume', 'resumed: %s, new model: %s; %s'
                  % (a, b, where))
        return
    ok = all(W.same_float(x, y) or abs(x - y) <= 1e-4 * abs(y)
             for x, y in zip(a, b)) and len(a) == len(b)
    run.check(ok, 'resumed differently', 'losses after going on: %s, of a '
              'new model: %s; %d epochs before; %s' % (a, b, epochs, where))
    d = W.diff_state(W.state(model), W.state(fresh))
    run.check(not d, 'resumed differently', '%s differ; %s' % (d, where))
    run.check(len(model.loss_history) == epochs + 2 == model.epoch,
              'records inconsistent', 'after going on: %s' % where)
