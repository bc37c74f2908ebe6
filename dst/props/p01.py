"""Running in the background gives exactly what running in the foreground
gives, for every interleaving"""
import random
import threading
import torch as t
from .. import session as S, world as W
from ..common import random_plan


def generate(rnd):
    sys = S.gen_system(rnd, tiny=.5)
    call = S.gen_call(rnd, sys, max_iter=3, safe=False)
    body = [rnd.choice([None, 'report', 'save', 'figure', 'close'])
            for _ in range(call['iterations'])]
    if 'tiny' in sys and rnd.random() < .2:
        body[0] = 'inspect'
    return {'system': sys, 'call': call, 'body': body,
            'figures': rnd.choice([0, 0, 1, 2]), 'seed': rnd.randrange(10**6),
            'ui': rnd.random() < .5}


def session(sc, run, thread, plan, record=None):
    model, ds = S.make_system(sc['system'])
    t.manual_seed(sc['seed'])
    snaps, yielded = [], []
    from matplotlib import pyplot as plt
    caller, where = threading.get_ident(), set()
    forward = model.forward

    def noted(*args, **kw):
        where.add('caller' if threading.get_ident() == caller else 'other')
        return forward(*args, **kw)
    with run.sim(plan, trace=thread, record=record,
                 ui_actions=S.ui_actions(model, ds)) as sim, S.quiet():
        for _ in range(sc['figures']):
            plt.figure()
        error = None
        model.forward = noted
        try:
            gen = S.start(model, ds, sc['call'], thread)
            for i, loss in enumerate(gen):
                yielded.append(float(loss))
                snap = S.snapshot(model)
                snap['alive'] = len(sim.running())
                snaps.append(snap)
                if i < len(sc['body']):
                    S.user_acts(model, ds, sc['body'][i])
        except Exception as e:
            # for example, a step which went too far
            error = '%s: %s' % (type(e).__name__, e)
        del model.forward
        end = S.snapshot(model)
        left = sim.running()
    plt.close('all')
    return {'yielded': yielded, 'snaps': snaps, 'end': end,
            'left': len(left), 'sim': sim, 'error': error, 'where': where}


def materialise(sc):
    from ..common import Run
    rnd = random.Random('plan/%d' % sc['seed'])
    record = []
    session(sc, Run(), True, {}, record)
    plan = random_plan(rnd, record)
    if sc['ui'] and sc['figures']:
        plan['ui'] = [[rnd.randint(1, 12), rnd.choice(
            ['close', 'close_all', 'open', 'draw', 'read', 'simulate'])]
            for _ in range(rnd.randint(1, 4))]
    sc['plan'] = plan
    return sc


def run(sc, run):
    fg = session(sc, run, False, {})
    bg = session(sc, run, True, sc['plan'])
    run.tags += ['model:' + S.kind_of(sc['system']),
                 'optimizer:' + sc['call']['opt']]
    run.nontrivial = bg['sim'].switches > 3
    run.probe('epochs', len(bg['yielded']))
    run.check(fg['error'] == bg['error'], 'errors differ',
              'foreground: %s, background: %s' % (fg['error'], bg['error']))
    if fg['error'] is None and bg['error'] is None:
        for where, r in ('foreground', fg), ('background', bg):
            run.check(len(r['yielded']) == sc['call']['iterations'],
                      'epoch count', '%s yielded %d losses'
                      % (where, len(r['yielded'])))
    else:
        run.probe('runs which failed in the same way')
    run.check(len(fg['yielded']) == len(bg['yielded']), 'epoch count',
              '%d epochs in the foreground, %d in the background'
              % (len(fg['yielded']), len(bg['yielded'])))
    run.check(all(W.same_float(a, b) for a, b in zip(
        fg['yielded'], bg['yielded'])), 'losses differ',
        'yielded %s in the foreground, %s in the background'
        % (fg['yielded'], bg['yielded']))
    run.check(fg['where'] <= {'caller'}, 'foreground computed elsewhere',
              'thread=False did not compute in the thread of the caller')
    run.check('other' in bg['where'] or not bg['yielded'],
              'background computed by the caller',
              'thread=True computed in the thread of the caller')
    for i, (a, b) in enumerate(zip(fg['snaps'], bg['snaps'])):
        d = S.differences(a, b)
        run.check(not d, 'state at epoch differs',
                  lambda: 'after epoch %d: %s' % (i + 1, d))
        run.check(b['alive'] == 0, 'computing between epochs',
                  'a computation was running when epoch %d was returned'
                  % (i + 1))
    d = S.differences(fg['end'], bg['end'])
    run.check(not d, 'final state differs', lambda: d)
    run.check(bg['left'] == 0, 'thread left behind')
    run.note_state(bg['end']['state'])
    run.note(bg['yielded'])
