"""inspect() keeps the figures which the user wants to see up to date with the
model, over any history of epochs, closed figures and clocks"""
import os
import random
import numpy as np
import torch as t
import matplotlib
from matplotlib import pyplot as plt
from .. import session as S, world as W

WAIT = [.5, 2., 7., 20., 100.]
INTERVALS = [1., 5., 10., 60.]


# --------------------------------------------------------------- scenarios
def gen_plot(rnd, i, panel=None):
    p = {'title': 'Plot %s%d' % (panel or '', i),
         'draws': rnd.choice(['model', 'model', 'model', 'dataset',
                              'optional']),
         'named': rnd.random() < .25}
    if panel is None:
        W.maybe(rnd, p, .5, 'level', 1, 2, 3)
    W.maybe(rnd, p, .3, 'condition', 'flag', 'flag', 'dataset', 'no dataset',
            'epochs')
    return p


def generate(rnd):
    real = rnd.random() < .3
    n = rnd.randint(3, 5)
    sc = {'real': real, 'interactive': rnd.random() < .3,
          'seed': rnd.randrange(10**6), 'panel_mode': rnd.random() < (.7 if real else .5),
          'plan': {'wall0': rnd.choice([1.7e9, 100., 4e9])}}
    if real:
        sc['system'] = S.gen_system(rnd, 0., None, n=n)
    else:
        sc['system'] = S.gen_system(rnd, 1., None, n=n)
        sc['plots'] = [gen_plot(rnd, i) for i in range(rnd.randint(0, 3))]
        sc['panels'] = []
        for k in range(rnd.randint(0, 2)):
            panel = {'title': 'Panel %d' % k, 'grid': [2, 2],
                     'plots': [gen_plot(rnd, i, 'P%d.' % k)
                               for i in range(rnd.randint(1, 3))]}
            W.maybe(rnd, panel, .5, 'level', 1, 2, 3)
            W.maybe(rnd, panel, .3, 'condition', 'flag', 'epochs',
                    'dataset', 'no dataset')
            sc['panels'].append(panel)
    sc['level'] = rnd.choice([1, 2, 3, 99])
    ops = [gen_op(rnd, sc, real) for _ in range(rnd.randint(3, 9))]
    if real:
        ops = [gen_inspect(rnd)] + ops[:5] + [['inspect', True, False, None]]
    sc['ops'] = ops
    if sc['interactive']:
        sc['plan']['ui'] = [[rnd.randint(1, 40), rnd.choice(
            ['close', 'close', 'open', 'draw', 'close_all'])]
            for _ in range(rnd.randint(0, 3))]
    return sc


def gen_inspect(rnd):
    return ['inspect', rnd.random() < .7, rnd.random() < .2,
            rnd.choice([None, None] + INTERVALS)]


def gen_op(rnd, sc, real):
    kind = rnd.choice(['inspect'] * 6 + ['wait'] * 3 + ['close'] * 3 +
                      ['epoch'] * 3 + ['own', 'jump', 'jump', 'level', 'mode', 'flag',
                                       'draw', 'save', 'current', 'losses']
                      + ['fails'] * (not real) + ['reload'] * real)
    if kind == 'inspect':
        return gen_inspect(rnd)
    if kind == 'wait':
        return ['wait', rnd.choice(WAIT)]
    if kind == 'jump':
        return ['jump', rnd.choice([-86400., -3600., -3., 3., 3600.])]
    if kind in ('close', 'draw', 'current'):
        return [kind, rnd.randrange(100)]
    if kind == 'level':
        return ['level', rnd.choice([1, 2, 3])]
    if kind == 'losses':
        return [kind, rnd.choice([0, 1, 20, 600, 5000]), rnd.random() < .5]
    if kind == 'fails':
        return ['fails', rnd.randrange(10), rnd.choice(
            [None, 'ValueError', 'RuntimeError', 'ZeroDivisionError',
             'KeyboardInterrupt'])]
    return [kind]


# ------------------------------------------------------------- what is drawn
class Recorder:
    """What the plot functions of the model were asked for"""

    def __init__(self):
        self.calls = []
        self.failing = {}
        self.flag = True


def conditions(kind, rec):
    if kind == 'flag':
        return lambda self: rec.flag
    if kind == 'dataset':
        return lambda self, dataset: dataset is not None
    if kind == 'no dataset':
        return lambda self, dataset: dataset is None
    return lambda self: self.epoch > 0


def user_plot(p, rec):
    def draw(self, fig, dataset):
        call = {'title': p['title'], 'fig': fig, 'dataset': dataset,
                'ok': False}
        rec.calls.append(call)
        how = rec.failing.get(p['title'])
        if how is not None:
            raise {'ValueError': ValueError, 'RuntimeError': RuntimeError,
                   'ZeroDivisionError': ZeroDivisionError,
                   'KeyboardInterrupt': KeyboardInterrupt}[how]('by the user')
        fig.clear()
        ax = fig.add_subplot()
        ax.plot(self.amp.detach().numpy().ravel())
        if p['named']:
            ax.set_title('named ' + p['title'])
        call.update(ok=True, ax=ax)

    if p['draws'] == 'model':
        func = lambda self, fig: draw(self, fig, None)       # noqa: E731
    elif p['draws'] == 'dataset':
        func = lambda self, fig, dataset: draw(self, fig, dataset)  # noqa
    else:
        func = lambda self, fig, dataset=None: draw(self, fig, dataset)  # noqa
    out = {'title': p['title'], 'plot_func': func}
    if 'level' in p:
        out['plot_level'] = p['level']
    if 'condition' in p:
        out['condition'] = conditions(p['condition'], rec)
    return out


def real_plot(p, rec):
    def func(self, fig, *args):
        call = {'title': p['title'], 'fig': fig, 'dataset': None, 'ok': False,
                'error': None}
        if args:
            call['dataset'] = args[0]
        try:
            p['plot_func'](self, fig, *args)
        except BaseException as e:
            call['error'] = e
            raise
        finally:
            rec.calls.append(call)
        call['ok'] = True
    return {**p, 'plot_func': func}


def install(sc, model, rec):
    """The lists of plots, as given to the model"""
    if sc['real']:
        cls = type(model)
        model.plot_list = [real_plot(p, rec) for p in cls.plot_list or []]
        model.plot_panel_list = [
            {**panel, 'plots': [real_plot(p, rec) for p in panel['plots']]}
            for panel in cls.plot_panel_list or []]
        return
    model.plot_list = [user_plot(p, rec) for p in sc['plots']]
    model.plot_panel_list = []
    for panel in sc['panels']:
        out = {'title': panel['title'], 'grid': tuple(panel['grid']),
               'plots': []}
        if 'level' in panel:
            out['plot_level'] = panel['level']
        if 'condition' in panel:
            out['condition'] = conditions(panel['condition'], rec)
        for i, p in enumerate(panel['plots']):
            out['plots'].append({**user_plot(p, rec),
                                 'subplot': (i // 2, i % 2)})
        model.plot_panel_list.append(out)


def holds(p, model, dataset):
    cond = p.get('condition')
    if cond is None:
        return True
    try:
        return bool(cond(model))
    except TypeError:
        return bool(cond(model, dataset))


def wanted(model, dataset):
    """{figure: [plots in it]} which belong to the current settings. In the
    individual mode, whether the condition of a panel counts is not said."""
    out, maybe = {}, set()
    for panel in model.plot_panel_list:
        if panel.get('plot_level', 1) > model.plot_level:
            continue
        ok = holds(panel, model, dataset)
        plots = [p for p in panel['plots'] if holds(p, model, dataset)]
        if model.panel_plot_mode:
            if ok:
                out[panel['title']] = plots
        else:
            for p in plots:
                out[p['title']] = [p]
                if not ok:
                    maybe.add(p['title'])
    for p in model.plot_list:
        if p.get('plot_level', 1) <= model.plot_level \
                and holds(p, model, dataset):
            out[p['title']] = [p]
    return out, maybe


def content(fig):
    """What can be seen in a figure, as plain arrays"""
    out = []
    for ax in fig.axes:
        here = [ax.get_title()]
        for im in ax.images:
            here += ['image', np.array(im.get_array()).copy()]
        for line in ax.lines:
            here += ['line', np.array(line.get_xydata()).copy()]
        for c in ax.collections:
            if c.get_array() is not None and c.get_offsets() is not None:
                here += ['points', np.array(c.get_offsets()).copy(),
                         np.array(c.get_array()).copy()]
        out.append(here)
    return out


def same_content(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if len(x) != len(y):
            return False
        for v, w in zip(x, y):
            if isinstance(v, str) or isinstance(w, str):
                if not (isinstance(v, str) and v == w):
                    return False
            elif v.shape != w.shape or not np.array_equal(
                    np.ma.filled(v.astype(float), np.nan),
                    np.ma.filled(w.astype(float), np.nan), equal_nan=True):
                return False
    return True


def callbacks(fig):
    return sum(len(v) for v in fig.canvas.callbacks.callbacks.values())


# ----------------------------------------------------------------------- run
class Session:
    def __init__(self, sc, run):
        self.sc, self.run = sc, run
        self.model, self.ds = S.make_system(sc['system'])
        self.rec = Recorder()
        self.set_up()
        self.last = None          # time of the last update
        self.unsure = []          # other times which may count instead
        self.known = set()        # figures which have been shown
        self.own = {}             # figures of the user: number -> content
        self.broken = False       # an update was interrupted
        self.ncallbacks = {}

    def set_up(self):
        install(self.sc, self.model, self.rec)
        self.model.plot_level = self.sc['level']
        self.model.panel_plot_mode = self.sc['panel_mode']

    # ---------------------------------------------------------- the user
    def others(self):
        return [f for f in plt.get_fignums()]

    def op(self, op):
        kind = op[0]
        if kind == 'inspect':
            return self.inspect(*op[1:])
        if kind == 'wait':
            self.sim.sleep(op[1])
        elif kind == 'jump':
            self.sim.wall_off += op[1]
            self.run.probe('fault:clock_jump')
        elif kind in ('close', 'draw', 'current'):
            nums = plt.get_fignums()
            if nums:
                num = nums[op[1] % len(nums)]
                if kind == 'close':
                    self.own.pop(num, None)
                    plt.close(num)
                    self.run.probe('fault:figure_closed')
                elif kind == 'draw':
                    plt.figure(num).canvas.draw()
                else:
                    plt.figure(num)
        elif kind == 'own':
            fig = plt.figure()
            fig.add_subplot().plot([1, 2, 3])
            self.own[fig.number] = (fig, content(fig))
        elif kind == 'epoch':
            if S.kind_of(self.sc['system']) == 'rpi':
                kw = {'subset': [0]}
            else:
                kw = {}
            for loss in self.model.Adam_optimize(1, self.ds, thread=False,
                                                 lr=.01, **kw):
                pass
        elif kind == 'level':
            self.model.plot_level = op[1]
        elif kind == 'mode':
            self.model.panel_plot_mode = not self.model.panel_plot_mode
        elif kind == 'flag':
            self.rec.flag = not self.rec.flag
        elif kind == 'fails':
            names = [p['title'] for p in self.sc['plots']] + [
                p['title'] for panel in self.sc['panels']
                for p in panel['plots']]
            if names:
                name = names[op[1] % len(names)]
                self.rec.failing.pop(name, None)
                if op[2]:
                    self.rec.failing[name] = op[2]
        elif kind == 'losses':
            # As if the reconstruction had been running for a long time
            self.model.loss_history += [
                1 + 100 / (1 + i) for i in range(op[1])]
            fig = self.model.plot_loss_history() if op[2] else \
                self.model.plot_loss_history(plt.figure())
            self.check_losses(fig)
            self.own[fig.number] = (fig, content(fig))
        elif kind == 'save':
            self.save()
        elif kind == 'reload':
            old = self.model
            self.model = type(old).from_results_dict(old.save_results())
            self.set_up()
            self.model.plot_level = old.plot_level
            self.model.panel_plot_mode = old.panel_plot_mode
            self.last, self.unsure, self.broken = None, [], False
        self.run.note(op)

    def check_losses(self, fig):
        for ax in fig.axes:
            if ax.get_title() == 'Loss History':
                want = [float(x) for x in self.model.loss_history]
                got = [line.get_xydata() for line in ax.lines]
                self.run.probe('loss histories')
                self.run.check(
                    len(got) == 1 and np.array_equal(
                        got[0][:, 1], want, equal_nan=True)
                    and np.array_equal(got[0][:, 0], np.arange(len(want))),
                    'loss history', lambda: 'shows %s values instead of %d' % (
                        [len(x) for x in got], len(want)))

    def save(self):
        model, run = self.model, self.run
        figs = [f for f in getattr(model, 'figs', [])]
        if not figs or (self.sc['real'] and len(figs) > 14):
            return
        d = run.scratch()
        model.save_figures(prefix=os.path.join(d, 'a '), extension='.svg')
        made = set(os.listdir(d))
        expected = {'a %s.svg' % f.get_label() for f in figs}
        run.check(made == expected, 'wrong files',
                  lambda: 'saved %s instead of %s' % (made, expected))
        run.probe('figures saved', len(made))

    # ----------------------------------------------------------- inspect
    def inspect(self, with_dataset, replot_all, interval):
        run, model, rec = self.run, self.model, self.rec
        ds = self.ds if with_dataset else None
        want, maybe = wanted(model, ds)
        before = {f.get_label(): f for f in map(plt.figure,
                                                plt.get_fignums())}
        state = W.state(model)
        content_before = {k: content(f) for k, f in before.items() if k}
        rec.calls = []
        start = self.sim.now
        skip = [self.must_skip(x, start, interval)
                for x in [self.last] + self.unsure]
        error = None
        ui0 = self.sim.fired.get('ui', 0) if hasattr(self.sim, 'fired') else 0
        try:
            model.inspect(ds, replot_all=replot_all, min_interval=interval)
        except BaseException as e:
            if not (isinstance(e, (Exception, KeyboardInterrupt))
                    and 'by the user' in str(e)):
                raise
            error = e
        run.check(not W.diff_state(state, W.state(model)),
                  'inspect changed the model')
        drawn = [c['title'] for c in rec.calls if c['ok']]
        tried = {c['title'] for c in rec.calls}
        acted = self.acted
        self.acted = []

        if error is not None:
            run.probe('updates which were interrupted')
            run.check(isinstance(error, KeyboardInterrupt)
                      or model.panel_plot_mode, 'exception',
                      'a plot which failed ended inspect(): %r' % error)
            self.broken = True
            self.unsure.append(self.sim.now)
            self.known |= set(plt.get_figlabels())
            return
        if all(s is True for s in skip):
            run.probe('updates skipped')
            run.check(not rec.calls, 'drawn too early',
                      lambda: 'drew %s %.3f s after the last update, with '
                      'min_interval=%s' % (sorted(tried), start - self.last,
                                           interval))
            run.check(all(same_content(content(f), content_before[k])
                          for k, f in before.items() if k and
                          k in plt.get_figlabels()), 'drawn too early',
                      'a figure changed although there was nothing to do')
            return
        # Whether this is one of the calls which have to do something
        sure = all(s is False for s in skip)
        if not sure and not rec.calls:
            return
        first = self.last is None and not self.broken
        must, may = set(), set()
        for name in want:
            if first or replot_all or name in before:
                (may if name in maybe else must).add(name)
            elif name not in self.known or self.broken:
                may.add(name)
        run.probe('updates')
        if acted:
            run.probe('user acted during an update')
        closed = 'close' in acted or 'close_all' in acted

        # Every plot of these figures is drawn once, and no other
        for name in sorted(must | may):
            for p in want[name]:
                title = p['title']
                count = drawn.count(title)
                can = self.can_draw(title, ds, name)
                if name in must and can:
                    run.check(count >= 1, 'not drawn', lambda: '%r was not '
                              'drawn (drew %s)' % (title, drawn))
                run.check(count <= 1, 'drawn twice', lambda: '%r was drawn %d '
                          'times' % (title, count))
        ok = {p['title'] for name in must | may for p in want[name]}
        run.check(tried <= ok, 'drew what it should not',
                  lambda: 'drew %s, but only %s were to be shown' % (
                      sorted(tried), sorted(ok)))

        # What is open now
        figs = {}
        for num in plt.get_fignums():
            f = plt.figure(num)
            if f.get_label():
                run.check(f.get_label() not in figs, 'figure opened twice',
                          f.get_label())
                figs[f.get_label()] = f
        if not closed:
            for name in must:
                run.check(name in figs, 'figure missing', name)
        extra = set(figs) - set(before) - must - may
        run.check(not extra, 'figure opened', lambda: 'opened %s, which had '
                  'been closed or do not apply' % sorted(extra))
        if not closed:
            gone = set(k for k in before if k) - set(figs)
            run.check(not gone, 'figure closed', lambda: sorted(gone))
        for name, f in figs.items():
            if name in before:
                run.check(f is before[name], 'figure replaced', name)
        for c in rec.calls:
            root = c['fig'].figure if c['fig'].figure is not None else c['fig']
            root = getattr(c['fig'], 'get_figure', lambda root: root)(
                root=True) if hasattr(c['fig'], 'get_figure') else root
            name = root.get_label()
            run.check(c['title'] in {p['title'] for p in want.get(name, [])},
                      'drawn into another figure', lambda: '%r was drawn into '
                      '%r' % (c['title'], name))
            if not c['ok']:
                continue
            if not self.sc['real']:
                run.check(c['ax'] in root.axes or closed, 'not in the figure',
                          c['title'])
                named = [p for p in self.all_plots()
                         if p['title'] == c['title']][0]['named']
                run.check(c['ax'].get_title() == (
                    'named ' if named else '') + c['title'], 'wrong title',
                    lambda: '%r has the title %r' % (
                        c['title'], c['ax'].get_title()))
                run.check(c['dataset'] is None or c['dataset'] is ds,
                          'wrong dataset')
        # Figures which don't belong to this update stay as they were
        for name in sorted(set(before) & set(figs) - set(want)):
            if name:
                run.check(same_content(content(figs[name]),
                                       content_before[name]),
                          'another figure changed', name)
        for num, (f, c) in list(self.own.items()):
            if not plt.fignum_exists(num):
                run.check(closed, 'figure of the user closed', num)
                del self.own[num]
                continue
            run.check(plt.figure(num) is f and same_content(content(f), c),
                      'figure of the user changed', num)
        expected = {f for f in figs.values()
                    if f.get_label() in (must | may)}
        got = set(model.figs)
        if not closed:
            run.check(must <= set(figs) and
                      {figs[k] for k in must} <= got <= expected,
                      'model.figs is wrong',
                      lambda: sorted(f.get_label() for f in got))
        # Updating a figure over and over leaves nothing behind in it
        for name in must:
            if name in figs and name in before:
                now = callbacks(figs[name])
                old = self.ncallbacks.get(name)
                run.check(not old or now <= max(old), 'callbacks pile up',
                          lambda: '%r had %s event callbacks, and now %d'
                          % (name, old, now))
                self.ncallbacks.setdefault(name, []).append(now)
            elif name in figs:
                self.ncallbacks[name] = []
        for name in figs:
            if name not in before:
                self.ncallbacks[name] = []

        if self.sc['real']:
            self.check_real(want, must, ds)
        self.last, self.unsure, self.broken = self.sim.now, [], False
        self.known |= set(figs) | must
        for c in rec.calls:
            self.run.note(c['title'], c['ok'])

    def must_skip(self, last, now, interval):
        """True, False, or None if it is too close to call"""
        if interval is None or last is None:
            return False
        if abs(now - last - interval) < .2:
            return None
        return now - last < interval

    def all_plots(self):
        return self.sc['plots'] + [p for panel in self.sc['panels']
                                   for p in panel['plots']]

    def can_draw(self, title, ds, name):
        if self.sc['real']:
            return True
        p = [p for p in self.all_plots() if p['title'] == title][0]
        if p['draws'] == 'dataset' and ds is None:
            return False
        return title not in self.rec.failing

    def check_real(self, want, must, ds):
        """The plots of the models of cdtools never fail, and show what they
        show in a new figure"""
        run, model = self.run, self.model
        for c in self.rec.calls:
            if c['error'] is not None and not isinstance(c['error'],
                                                         TypeError):
                run.bad('plot failed', '%r: %r' % (c['title'], c['error']))
        for name in must:
            if name in plt.get_figlabels():
                self.check_losses(plt.figure(name))
            for p in want[name]:
                errors = [c['error'] for c in self.rec.calls
                          if c['title'] == p['title']]
                run.probe('real plots')
                if errors and isinstance(errors[-1], TypeError) and not (
                        ds is None and len(errors) == 1
                        and 'positional argument' in str(errors[-1])):
                    run.bad('plot failed', '%r: %r' % (p['title'],
                                                       errors[-1]))

    def compare_with_new(self):
        """After a last update, all figures show what new ones show"""
        model = self.model
        self.rec.failing.clear()
        if not plt.get_fignums():
            return
        model.inspect(self.ds)
        names = set(wanted(model, self.ds)[0])
        shown = {f.get_label(): content(f) for f in
                 map(plt.figure, plt.get_fignums()) if f.get_label() in names}
        plt.close('all')
        model.inspect(self.ds, replot_all=True)
        new = {f.get_label(): content(f) for f in
               map(plt.figure, plt.get_fignums())}
        for name in sorted(shown):
            self.run.check(name in new, 'figure missing', name)
            if name in new:
                self.run.probe('figures compared with new ones')
                self.run.check(same_content(shown[name], new[name]),
                               'updated figure differs from a new one', name)


def run(sc, run):
    s = Session(sc, run)
    s.acted = []
    ui = {}
    for k, f in S.ui_actions(s.model, s.ds).items():
        def act(canvas, a, k=k, f=f):
            s.acted.append(k)
            f(canvas, a)
        ui[k] = act
    ui['open'] = lambda canvas, a: None
    orig = matplotlib.get_backend
    try:
        if sc['interactive']:
            matplotlib.get_backend = lambda *a, **k: 'TkAgg'
            run.tags.append('interactive')
        with run.sim(sc['plan'], trace=False, ui_actions=ui) as sim, S.quiet():
            s.sim = sim
            for op in sc['ops']:
                s.acted = []
                s.op(op)
            s.acted = []
            if not sc['interactive']:
                s.compare_with_new()
    finally:
        matplotlib.get_backend = orig
        plt.close('all')
    run.tags += ['model:' + S.kind_of(sc['system'])]
    run.nontrivial = any(o[0] == 'inspect' for o in sc['ops'])
