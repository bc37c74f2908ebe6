"""Reconstruction sessions: systems, calls to optimize, and what the user does
while a reconstruction is running"""
import contextlib
import io
import re
import numpy as np
import torch as t
from matplotlib import pyplot as plt
from . import world as W


# ----------------------------------------------------------------- systems
def gen_system(rnd, tiny=.5, kinds=None, n=None):
    if rnd.random() < tiny:
        return {'tiny': W.gen_tiny(rnd), 'data': W.gen_dataset(rnd, n=n)}
    kind = rnd.choice(kinds or W.KINDS)
    return W.gen_world(rnd, kind, n=n)


def make_system(sys, cls=W.TinyModel):
    if 'tiny' in sys:
        ds = W.make_dataset(sys['data'])
        return W.make_tiny(sys['tiny'], ds, cls), ds
    return W.make_world(sys)


def kind_of(sys):
    return 'tiny' if 'tiny' in sys else sys['model']['kind']


# ------------------------------------------------------- calls to optimize
def gen_call(rnd, sys, opt=None, max_iter=4, safe=True):
    """A random call. L-BFGS easily diverges, which then makes the translations
    of some models invalid: safe avoids that."""
    n = sys['data']['n']
    opt = opt or rnd.choice(['adam', 'adam', 'sgd', 'lbfgs'])
    tiny = 'tiny' in sys
    if safe and opt == 'lbfgs' and kind_of(sys) not in ('tiny', 'simple',
                                                        'rpi'):
        opt = 'adam'
    call = {'opt': opt, 'iterations': rnd.randint(1, max_iter),
            'calculation_width': rnd.choice([1, 2, 3, 10])}
    kw = {}
    if opt == 'adam':
        kw['batch_size'] = rnd.choice([1, 2, 3, n, 15])
        kw['lr'] = rnd.choice([.005, .02, .05])
        W.maybe(rnd, kw, .3, 'betas', [.8, .9], [.5, .999])
        W.maybe(rnd, kw, .3, 'amsgrad', True)
        W.maybe(rnd, kw, .3, 'schedule', True)
    elif opt == 'sgd':
        kw['batch_size'] = rnd.choice([None, 1, 2, 3, n])
        kw['lr'] = rnd.choice([1e-4, 1e-3]) if tiny \
            else rnd.choice([1e-9, 1e-8])
        W.maybe(rnd, kw, .4, 'momentum', .5, .9)
        if kw.get('momentum'):
            W.maybe(rnd, kw, .4, 'nesterov', True)
            if not kw.get('nesterov'):
                W.maybe(rnd, kw, .4, 'dampening', .2)
        W.maybe(rnd, kw, .2, 'weight_decay', .01)
    else:
        kw['lr'] = rnd.choice([.01, .1]) if tiny else .001
        kw['history_size'] = rnd.choice([2, 4])
        W.maybe(rnd, kw, .3, 'line_search_fn', 'strong_wolfe')
    if tiny or kind_of(sys) == 'rpi':
        W.maybe(rnd, kw, .3, 'regularization_factor', [.1, .01], [0., 1.])
    call['kw'] = kw
    if kind_of(sys) == 'rpi':
        call['subset'] = [rnd.randrange(n)]
    elif rnd.random() < .25:
        k = rnd.randint(1, n)
        call['subset'] = rnd.sample(range(n), k)
        if k == 1 and rnd.random() < .5:
            call['subset'] = call['subset'][0]
    if opt != 'lbfgs' and rnd.random() < .25:
        names = ['obj', 'weights', 'probe', 'amp', 'background']
        call['lr_factors'] = {k: rnd.choice([0., .1, 2.]) for k in
                              rnd.sample(names, 2)}
    call['via'] = rnd.choice(['reconstructor', 'method'])
    if call['via'] == 'reconstructor' and opt != 'lbfgs':
        W.maybe(rnd, kw, .3, 'shuffle', False)
    return call


def start(model, ds, call, thread, reconstructor=None, **extra):
    """The generator returned by optimize"""
    kw = dict(call['kw'])
    if 'betas' in kw:
        kw['betas'] = tuple(kw['betas'])
    kw['calculation_width'] = call['calculation_width']
    kw['thread'] = thread
    kw.update(extra)
    if call.get('via') == 'method':
        kw['subset'] = call.get('subset')
        if call.get('lr_factors'):
            kw['lr_factors'] = call['lr_factors']
        f = {'adam': model.Adam_optimize, 'sgd': model.SGD_optimize,
             'lbfgs': model.LBFGS_optimize}[call['opt']]
        return f(call['iterations'], ds, **kw)
    if reconstructor is None:
        reconstructor = W.recon(model, ds, call['opt'], call.get('subset'),
                                call.get('lr_factors'))
    return reconstructor.optimize(call['iterations'], **kw)


def selected(call, n):
    sub = call.get('subset')
    if sub is None:
        return list(range(n))
    return [sub] if isinstance(sub, int) else list(sub)


# ---------------------------------------------------------------- histories
def plain_history(text):
    """The training history, without how long things took"""
    return re.sub(r'completed in +-?[\d.]+ s', 'completed', str(text))


def epoch_lines(text):
    return [line for line in str(text).split('\n')
            if line.startswith('Epoch')]


def snapshot(model):
    return {'state': W.state(model),
            'losses': [float(x) for x in model.loss_history],
            'epoch': int(model.epoch),
            'history': plain_history(model.training_history)}


def differences(a, b):
    """What differs between two snapshots"""
    out = ['state:' + k for k in W.diff_state(a['state'], b['state'])]
    if len(a['losses']) != len(b['losses']) or not all(
            W.same_float(x, y) for x, y in zip(a['losses'], b['losses'])):
        out.append('loss_history %s / %s' % (a['losses'], b['losses']))
    if a['epoch'] != b['epoch']:
        out.append('epoch %s / %s' % (a['epoch'], b['epoch']))
    if a['history'] != b['history']:
        out.append('training_history %r / %r' % (a['history'][-300:],
                                                 b['history'][-300:]))
    return out


# ------------------------------------------------------------ what users do
def user_acts(model, ds, action):
    """What a user does between two epochs"""
    if action == 'report':
        str(model.report())
    elif action == 'inspect':
        model.inspect(ds)
    elif action == 'save':
        model.save_results()
    elif action == 'figure':
        fig = plt.figure()
        fig.add_subplot().plot([0, 1])
    elif action == 'close':
        nums = plt.get_fignums()
        if nums:
            plt.close(nums[-1])


def ui_actions(model, ds):
    """What can happen while the events of a figure are processed"""
    def close(canvas, a):
        plt.close(canvas.figure)

    def close_all(canvas, a):
        plt.close('all')

    def opens(canvas, a):
        plt.figure()

    def draw(canvas, a):
        canvas.draw()

    def read(canvas, a):
        model.report()
        model.save_results()

    def simulate(canvas, a):
        with t.no_grad():
            inputs, patterns = ds[0:1]
            model.forward(*inputs)

    def fail(canvas, a):
        raise RuntimeError('a callback of the user failed')

    return {'close': close, 'close_all': close_all, 'open': opens,
            'draw': draw, 'read': read, 'simulate': simulate, 'fail': fail}


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()) as out:
        yield out
