"""The interactive viewers show what they say they show, after any sequence of
keys, clicks, slider movements, zooming, epochs and read errors"""
import random
import sys
import traceback
import warnings
import numpy as np
import torch as t
import matplotlib
from matplotlib import cbook, pyplot as plt
from matplotlib.backend_bases import (FigureCanvasBase, KeyEvent, MouseEvent,
                                      NavigationToolbar2)
from matplotlib.collections import PathCollection
from cdtools.tools import analysis, plotting
from cdtools.tools.plotting import plotting as plotting_module
from .. import session as S, world as W
from ..faults import Faults, FaultyDataset

FUNCS = ['amplitude', 'phase', 'real', 'imag', 'colorized', 'plain']
OTHER_KEYS = ['x', 'enter', 'shift', 'pageup', '7']


# --------------------------------------------------------------- scenarios
def gen_image(rnd):
    v = {'kind': 'image', 'func': rnd.choice(FUNCS),
         'dims': [rnd.choice([1, 2, 3, 4]) for _ in
                  range(rnd.choice([0, 1, 1, 2, 2, 3]))],
         'size': [rnd.randint(3, 6), rnd.randint(3, 6)],
         'seed': rnd.randrange(10**6), 'tensor': rnd.random() < .5}
    W.maybe(rnd, v, .4, 'basis', 'ortho', 'skewed')
    if v['func'] != 'colorized':
        W.maybe(rnd, v, .2, 'vmin', -.5, .1)
        W.maybe(rnd, v, .2, 'vmax', 1.5, 3.)
        W.maybe(rnd, v, .2, 'no_cbar', True)
    if v['func'] == 'phase':
        W.maybe(rnd, v, .3, 'cmap', 'phase', 'cyclic')
    W.maybe(rnd, v, .3, 'labels', 1, 3)
    W.maybe(rnd, v, .3, 'title', 'An image')
    W.maybe(rnd, v, .3, 'units', 'nm', 'um')
    W.maybe(rnd, v, .2, 'subfigure', True)
    return v


def has_wavefronts(sys):
    return sys.get('model', {}).get('kw', {}).get('dm_rank')


def gen_viewer(rnd, sys):
    kinds = ['compare', 'compare', 'inspect', 'map', 'image', 'image']
    kind = rnd.choice(kinds + ['wavefront'] * (3 if has_wavefronts(sys)
                                               else 0))
    if kind == 'wavefront':
        return {'kind': kind, 'mode': rnd.choice(
            ['amplitude', 'amplitude', 'phase', 'root_sum_intensity'])}
    if kind == 'compare':
        return {'kind': kind, 'log': rnd.random() < .3}
    if kind == 'inspect':
        v = {'kind': kind, 'log': rnd.random() < .6}
        W.maybe(rnd, v, .3, 'offset', .5, 10.)
        W.maybe(rnd, v, .3, 'units', 'nm')
        W.maybe(rnd, v, .3, 'mean', True)
        W.maybe(rnd, v, .3, 'mask', True)
        return v
    if kind == 'map':
        v = {'kind': kind, 'n': rnd.randint(1, 5),
             'dims': rnd.choice([[], [], [1], [2], [3], [2, 2]]),
             'size': [rnd.randint(3, 6), rnd.randint(3, 6)],
             'seed': rnd.randrange(10**6), 'values': rnd.random() < .6,
             'tensor': rnd.random() < .5}
        W.maybe(rnd, v, .3, 'basis', True)
        W.maybe(rnd, v, .3, 'convention', 'obj', 'probe')
        W.maybe(rnd, v, .3, 'constant', True)
        return v
    return gen_image(rnd)


def gen_event(rnd, zoom):
    v = rnd.randrange(10)
    kind = rnd.choice(['key'] * 5 + ['scroll'] * 3 + ['slide'] * 4 + ['pick']
                      + ['zoom', 'nav', 'cbar'] * zoom)
    where = rnd.choice(['image', 'image', 'slider', 'map', 'none'])
    if kind == 'key':
        return [kind, v, rnd.choice(['up', 'down', 'left', 'right'] * 4
                                    + OTHER_KEYS[:2]), where]
    if kind == 'scroll':
        return [kind, v, rnd.choice(['up', 'down']), where]
    if kind == 'slide':
        return [kind, v, rnd.randrange(3), rnd.random(),
                [rnd.random() for _ in range(rnd.choice([0, 0, 1, 3]))]]
    if kind == 'pick':
        return [kind, v, rnd.randrange(10), rnd.choice([1, 1, 1, 3])]
    if kind == 'zoom':
        return [kind, v, rnd.choice(['zoom', 'pan'])]
    if kind == 'cbar':
        return [kind, v]
    return [kind, v, rnd.choice(['home', 'back', 'forward'])]


def generate(rnd):
    sys = S.gen_system(rnd, .7, None, n=rnd.randint(3, 5))
    if 'tiny' in sys:
        sys['data']['n'] = rnd.choice([1, 2, 3, 3, 4, 5, 6])
    elif sys['model']['kind'] in ('fancy', 'near', 'multislice') \
            and rnd.random() < .6:
        kw = sys['model']['kw']
        kw.pop('n_obj_modes', None)
        kw['n_modes'] = max(kw.get('n_modes', 1), 2)
        kw['dm_rank'] = rnd.choice([1, 2, -1])
        if sys['model']['kind'] == 'multislice':
            sys['data']['intensities'] = False
    zoom = rnd.random() < .5
    sc = {'system': sys, 'toolbar': zoom, 'seed': rnd.randrange(10**6),
          'redraw': rnd.random() < .1,
          'viewers': [gen_viewer(rnd, sys) for _ in range(rnd.choice([1, 1, 2,
                                                                 3]))],
          'plan': {'wall0': 1.7e9}}
    ops = []
    for _ in range(rnd.randint(5, 25)):
        kind = rnd.choice(['event'] * 12 + ['epoch', 'change', 'fail',
                                            'update', 'close', 'open', 'own',
                                            'background', 'clear',
                                            'reuse'])
        if kind == 'event':
            ops.append(gen_event(rnd, zoom))
        elif kind == 'fail':
            ops.append(['fail', rnd.randint(1, 2),
                        rnd.choice(['OSError', 'RuntimeError', 'MemoryError'])
                        ])
        elif kind == 'update':
            ops.append(['update', rnd.randrange(10), rnd.randrange(10**6),
                        rnd.choice(['data', 'data', 'data', 'shape'])])
        elif kind == 'open':
            ops.append(['open', gen_viewer(rnd, sys)])
        elif kind == 'change':
            ops.append(['change', rnd.choice(['mask', 'patterns']),
                        rnd.randrange(10**6)])
        elif kind == 'background':
            ops.append(['background', [gen_event(rnd, zoom) for _ in
                                       range(rnd.randint(1, 4))]])
        elif kind in ('close', 'clear', 'reuse'):
            ops.append([kind, rnd.randrange(10)])
        else:
            ops.append([kind])
    sc['ops'] = ops
    return sc


# --------------------------------------------------------------- reference
def rand_complex(v, seed=None):
    r = np.random.RandomState(v['seed'] if seed is None else seed)
    shape = tuple(v['dims']) + tuple(v['size'])
    return r.normal(size=shape) + 1j * r.normal(size=shape)


def apply(func, x):
    return {'amplitude': np.abs, 'phase': np.angle, 'real': np.real,
            'imag': np.imag, 'plain': np.real,
            'colorized': plotting.colorize}[func](x)


def array_of(im):
    return np.ma.filled(np.ma.asarray(im.get_array()).astype(float), np.nan)


def close(a, b):
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-4, atol=1e-6,
                                              equal_nan=True)


def step(i, by, n):
    return (i + by) % n


class Events:
    """The user's keyboard and mouse"""

    def __init__(self, run):
        self.run = run
        self.errors = []

    def dispatch(self, event):
        event.canvas.callbacks.process(event.name, event)

    def position(self, ax, xy=(.5, .5)):
        return ax.transAxes.transform(xy)

    def key(self, fig, key, ax):
        xy = self.position(ax, (.47, .52)) if ax is not None else ()
        for name in ('key_press_event', 'key_release_event'):
            self.dispatch(KeyEvent(name, fig.canvas, key, *xy))

    def scroll(self, fig, direction, ax):
        x, y = self.position(ax, (.47, .52)) if ax is not None else (1, 1)
        self.dispatch(MouseEvent('scroll_event', fig.canvas, x, y,
                                 step=1 if direction == 'up' else -1))

    def mouse(self, name, fig, x, y, button=1):
        self.dispatch(MouseEvent(name + '_event', fig.canvas, x, y, button))

    def drag(self, fig, points, button=1):
        self.mouse('button_press', fig, *points[0], button)
        for p in points[1:]:
            self.mouse('motion_notify', fig, *p, button)
        self.mouse('button_release', fig, *points[-1], button)


class Slider:
    """What can be seen of a slider"""

    def __init__(self, ax):
        self.ax = ax
        self.label, self.value = [x.get_text() for x in ax.texts][:2]

    def position(self, value):
        lo, hi = self.ax.get_xlim()
        eps = .03 * (hi - lo)
        return self.ax.transData.transform(
            (min(max(value, lo + eps), hi - eps), .5))


def sliders(fig):
    out = []
    for ax in fig.axes:
        if len(ax.texts) == 2 and ax.texts[1].get_text().lstrip(
                '-').isdigit() and not ax.images:
            out.append(Slider(ax))
    return sorted(out, key=lambda x: -x.ax.get_position().y0)


# ------------------------------------------------------------------- viewers
class Viewer:
    exact_limits = True

    def __init__(self, spec, s):
        self.spec, self.s = spec, s
        self.alive = True
        self.sure = True         # whether it has to show the current data
        self.limits = True       # whether it has to show all of the data
        self.open()
        self.index = self.start()
        self.maybe = {self.index}

    def check(self, cond, kind, detail=''):
        return self.s.run.check(cond, '%s: %s' % (self.spec['kind'], kind),
                                detail)

    @property
    def root(self):
        return self.fig.get_figure(root=True) \
            if hasattr(self.fig, 'get_figure') else self.fig

    def axes_at(self, where):
        if where == 'image':
            found = self.image_axes()
            return found[0] if found else None
        if where == 'slider':
            found = sliders(self.fig)
            return found[0].ax if found else None
        if where == 'map' and isinstance(self, Map):
            return self.map_axes()
        return None

    def image_axes(self):
        return [ax for ax in self.fig.axes if ax.images
                and not hasattr(ax, '_colorbar')]

    def images(self):
        return [ax.images[-1] for ax in self.image_axes()]

    def slider_value(self, k=0):
        return int(sliders(self.fig)[k].value)

    # ------------------------------------------------------------ checking
    def verify(self, allowed, moved, failed):
        """After an event, which may or may not have failed"""
        if moved:
            self.sure = not failed
            self.limits = True
        seen = self.observe()
        ok = self.check(seen in allowed, 'wrong index', lambda: 'shows %s '
                        'instead of %s' % (seen, sorted(allowed)))
        if moved and not failed:
            self.maybe = set()
        elif failed:
            self.maybe |= allowed
        self.maybe.add(seen)
        self.index = seen
        if ok and self.sure:
            self.check_images()

    def check_images(self):
        wanted = self.wanted(self.index)
        got = [array_of(im) for im in self.images()]
        if not self.check(len(got) == len(wanted), 'images missing',
                          '%d images' % len(got)):
            return
        self.s.run.probe('images compared', len(got))
        for k, (a, b) in enumerate(zip(got, wanted)):
            keep = np.isfinite(b)
            if a.shape == b.shape:
                a, b = np.where(keep, a, 0), np.where(keep, b, 0)
            if not self.check(close(a, b), 'wrong image', lambda: 'image %d '
                              'at %s: %s instead of %s' % (
                                  k, self.index, a.ravel()[:4],
                                  b.ravel()[:4])):
                continue
            if keep.all():
                self.check_limits(self.images()[k], a)

    def check_limits(self, im, a):
        lo, hi = a.min(), a.max()
        if lo == hi or not self.limits:
            return
        got = im.get_clim()
        self.check(np.allclose(got, (lo, hi), rtol=1e-4, atol=1e-6),
                   'wrong color limits', lambda: '%s instead of %s at %s' % (
                       got, (lo, hi), self.index))

    # -------------------------------------------------------------- events
    def act(self, op, ev):
        """Returns the indices which may follow, and whether it moves"""
        kind = op[0]
        old = self.index
        if kind == 'key':
            ax = self.axes_at(op[3])
            ev.key(self.fig, op[2], ax)
            return self.after_any(self.after_key, op[2], ax)
        if kind == 'scroll':
            ax = self.axes_at(op[3])
            ev.scroll(self.fig, op[2], ax)
            return self.after_any(self.after_scroll, op[2], ax)
        if kind == 'slide':
            return self.slide(op, ev)
        if kind == 'zoom':
            tb = self.root.canvas.toolbar
            ax = self.axes_at('image')
            if ax is None:
                return {old}, False
            getattr(tb, op[2])()
            try:
                ev.drag(self.fig, [ev.position(ax, p) for p in
                                   ((.2, .2), (.4, .5), (.7, .8))])
            finally:
                getattr(tb, op[2])()
            return {old}, False
        if kind == 'cbar':
            self.zoom_colorbar(ev)
            return {old}, False
        if kind == 'nav':
            getattr(self.root.canvas.toolbar, op[2])()
            return {old}, False
        if kind == 'pick':
            return self.pick(op, ev)

    def after_any(self, after, *args):
        """After a failure, it may be at the old or at the new index"""
        out, index = set(), self.index
        for self.index in self.maybe:
            allowed, moved = after(*args)
            out |= allowed
        self.index = index
        return out, moved

    def zoom_colorbar(self, ev):
        pass

    def pick(self, op, ev):
        return {self.index}, False

    def slide(self, op, ev):
        found = sliders(self.fig)
        dims = self.slider_dims()
        if not found or not dims:
            return {self.index}, False
        k = op[2] % len(dims)
        n = dims[k][1]
        sl = found[k]
        values = [int(f * n) for f in [op[3]] + op[4]]
        ev.drag(self.fig, [sl.position(v + (f - .5) * .6) for v, f in
                           zip(values, [op[3]] + op[4])])
        old = list(self.flat(self.index))
        new = list(old)
        new[dims[k][0]] = values[-1]
        out = set()
        for base in self.maybe:
            base = list(self.flat(base))
            base[dims[k][0]] = values[-1]
            out.add(self.unflat(base))
        return out, new != old

    def flat(self, index):
        return [index]

    def unflat(self, x):
        return x[0]

    def slider_dims(self):
        return [(0, self.n)] if self.n > 1 else []


class Compare(Viewer):
    def open(self):
        before = set(plt.get_fignums())
        self.s.model.compare(self.s.ds, logarithmic=self.spec['log'])
        new = sorted(set(plt.get_fignums()) - before)
        self.check(len(new) == 1, 'figures', 'opened %d figures' % len(new))
        self.fig = plt.figure(new[-1])
        self.n = len(self.s.ds)

    def start(self):
        return 0

    def observe(self):
        return self.slider_value()

    def wanted(self, i):
        model, ds = self.s.model, self.s.ds
        with t.no_grad():
            inputs, out = ds[i:i + 1]
            sim = model.forward(*inputs).detach().numpy()
        sim = sim[0] if sim.ndim > 2 else sim
        meas = out.numpy()[0]
        mask = getattr(model, 'mask', None)
        mask = np.ones(meas.shape, bool) if mask is None \
            else mask.detach().numpy().astype(bool)
        with np.errstate(all='ignore'):
            if self.spec['log']:
                sim, meas = np.log10(sim), np.log10(meas)
                return [sim, np.where(mask, meas, np.nan),
                        np.where(mask, sim - meas, np.nan)]
            return [sim, meas * mask, (sim - meas) * mask]

    def after_key(self, key, ax):
        by = {'up': -1, 'down': 1}.get(key)
        if by is None:
            return {self.index}, False
        return {step(self.index, by, self.n)}, True

    def after_scroll(self, key, ax):
        return self.after_key(key, ax)


class Map(Viewer):
    """plot_nanomap_with_images"""

    def start(self):
        return (0, 0)

    def flat(self, index):
        return list(index)

    def unflat(self, x):
        return tuple(x)

    def map_axes(self):
        return [ax for ax in self.fig.axes if any(
            isinstance(c, PathCollection) for c in ax.collections)][0]

    def points(self):
        return [c for c in self.map_axes().collections
                if isinstance(c, PathCollection)][0]

    def stack_text(self):
        for ax in self.image_axes():
            for x in ax.texts:
                if x.get_text().isdigit():
                    return int(x.get_text())

    def observe(self):
        j = self.stack_text()
        i = self.slider_value()
        if self.sure:
            sizes = self.points().get_sizes()
            big = [k for k in range(len(sizes))
                   if sizes[k] > 2 * np.min(sizes)]
            self.check(self.n == 1 or big == [i], 'wrong point marked',
                       lambda: '%s are marked at %s' % (big, i))
        return (i, j or 0)

    def wanted(self, index):
        x = self.images_at(index[0])
        x = x.reshape((-1,) + x.shape[-2:])
        return [x[index[1]]]

    def check_map(self):
        trans, values = self.map
        got = np.array(self.points().get_offsets())
        self.check(close(got, trans[:, :2]), 'wrong map')
        if values is not None:
            self.check(close(np.array(self.points().get_array()), values),
                       'wrong values in the map')

    def after_key(self, key, ax):
        i, j = self.index
        by = {'left': -1, 'right': 1}.get(key, 0)
        # Other keys in the image may refresh it
        in_stack = self.stack > 0 and ax is self.axes_at('image')
        if not by:
            return {(i, j)}, False
        if in_stack:
            return {(i, step(j, by, self.stack))}, True
        return {(step(i, by, self.n), j)}, True

    def after_scroll(self, key, ax):
        return {self.index}, False

    def pick(self, op, ev):
        """A click onto a point selects this point, or one close to it"""
        i, j = self.index
        pts = self.points()
        xy = self.map_axes().transData.transform(pts.get_offsets())
        k = op[2] % self.n
        radius = np.sqrt(pts.get_sizes() / np.pi) \
            * self.root.dpi / 72
        visible = self.map_axes().bbox.contains(*xy[k])
        ev.drag(self.fig, [xy[k]], op[3])
        if op[3] != 1:
            return {(i, j)}, False
        dist = np.linalg.norm(xy - xy[k], axis=1)
        near = {(int(m), j) for m in np.nonzero(dist <= radius + 12)[0]
                for _, j in self.maybe}
        if not visible:
            near |= self.maybe
        self.s.run.probe('points picked')
        return near, True


class Inspect(Map):
    def open(self):
        spec, ds = self.spec, self.s.ds
        self.offset = spec.get('offset', 1)
        self.n, self.stack = len(ds), 0
        before = set(plt.get_fignums())
        self.fig = ds.inspect(
            logarithmic=spec['log'], units=spec.get('units', 'um'),
            log_offset=self.offset, plot_mean_pattern=spec.get('mean', False),
            plot_mask=spec.get('mask', False))
        self.check(isinstance(self.fig, matplotlib.figure.Figure),
                   'figures', 'returned %r' % self.fig)
        new = [plt.figure(i) for i in plt.get_fignums() if i not in before]
        mean, mask = spec.get('mean', False), spec.get('mask', False)
        self.check(self.fig in new and len(new) == 1 + mean + mask, 'figures',
                   '%d new figures, with the mean pattern: %s, with the mask: '
                   '%s' % (len(new), mean, mask))
        shown = [np.asarray(im.get_array()) for f in new if f is not self.fig
                 for ax in f.axes for im in ax.images]
        # a colorbar is no image
        self.check(len(shown) == mean + mask and all(
            x.shape == tuple(ds.mask.shape) for x in shown), 'figures',
            'shapes %s' % [x.shape for x in shown])
        if mask and len(shown) == mean + mask:
            self.check(any(np.array_equal(x, ds.mask.numpy()) for x in shown),
                       'mask figure', 'does not show the mask')
        factor = 1e9 if spec.get('units') == 'nm' else 1e6
        self.map = (ds.translations.numpy() * factor,
                    (ds.patterns * ds.mask).sum(dim=(1, 2)).numpy())
        self.check_map()

    def images_at(self, i):
        ds = self.s.ds
        x = (ds.patterns[i] * ds.mask).numpy()
        return np.log10(x + self.offset) if self.spec['log'] else x


class Wavefront(Map):
    """The probe modes of each position, on the scan map"""

    def open(self):
        model, ds = self.s.model, self.s.ds
        self.n = len(ds)
        rank = model.weights.shape[1]
        self.stack = rank if self.spec['mode'] != 'root_sum_intensity' else 0
        before = set(plt.get_fignums())
        model.plot_wavefront_variation(ds, mode=self.spec['mode'])
        new = sorted(set(plt.get_fignums()) - before)
        self.check(len(new) == 1, 'figures', 'opened %d figures' % len(new))
        self.fig = plt.figure(new[-1])
        with t.no_grad():
            trans = model.corrected_translations(ds).numpy() * 1e6
            power = self.modes(t.arange(self.n), False).abs().square().sum(
                dim=(1, 2, 3))
            if self.s.sc['system']['model']['kind'] != 'multislice':
                power = power / model.probe.abs().square().sum()
        self.map = trans, power.numpy()
        self.check_map()

    def modes(self, i, support):
        model = self.s.model
        probe = model.probe.detach()
        if support:
            probe = probe * model.probe_support
        return t.einsum('nkm,mij->nkij', model.weights.detach()[i],
                        probe.to(model.weights.dtype))

    def images_at(self, i):
        modes = analysis.orthogonalize_probes(
            self.modes(t.tensor([i]), True)[0]).numpy()
        if self.spec['mode'] == 'phase':
            # Rounding matters at the cut, and where nothing is
            unclear = (np.abs(modes) < 1e-3 * np.max(np.abs(modes))) \
                | (np.abs(np.angle(modes)) > 3.1)
            return np.where(unclear, np.nan, np.angle(modes))
        return np.sum(np.abs(modes)**2, axis=0) \
            if self.spec['mode'] == 'root_sum_intensity' else np.abs(modes)


class OwnMap(Map):
    def open(self, fig=None):
        spec = self.spec
        r = np.random.RandomState(spec['seed'])
        self.n = spec['n']
        shape = (self.n,) + tuple(spec['dims']) + tuple(spec['size'])
        self.stack = int(np.prod(spec['dims'])) if spec['dims'] else 0
        self.data = r.normal(size=shape)
        if spec.get('constant'):
            self.data[0] = 1.5
        trans = r.uniform(-1e-6, 1e-6, (self.n, 3))
        values = r.uniform(1, 2, self.n) if spec['values'] else None
        kw = {}
        if 'basis' in spec:
            kw['basis'] = np.array([[0, -1e-7], [-2e-7, 0], [0, 0]])
        if 'convention' in spec:
            kw['convention'] = spec['convention']
        sign = -1 if spec.get('convention') == 'obj' else 1
        self.map = (trans * 1e6 * sign, values)
        conv = t.as_tensor if spec['tensor'] else np.asarray

        def get(i):
            self.s.faults.pass_by('dataset')
            return conv(self.data[int(i)])
        self.fig = plotting.plot_nanomap_with_images(
            conv(trans), get, fig=fig,
            values=None if values is None else conv(values), **kw)
        self.check_map()

    def images_at(self, i):
        return self.data[i]

    def check_limits(self, im, a):
        return super().check_limits(im, a)

    def update(self, seed, how):
        spec = dict(self.spec, seed=seed)
        if how == 'shape':
            r = random.Random(seed)
            spec['n'] = r.randint(1, 5)
            spec['dims'] = r.choice([[], [2], [3]])
        self.spec = spec
        old = self.fig
        self.open(old)
        self.check(self.fig is old, 'another figure')
        self.index = (0, 0)


class Image(Viewer):
    def draw(self, data):
        spec = self.spec
        kw = {}
        if spec.get('basis') == 'ortho':
            kw['basis'] = np.array([[0, -1e-7], [-2e-7, 0], [0, 0]])
        elif spec.get('basis'):
            kw['basis'] = np.array([[1e-8, -1e-7], [-2e-7, 0], [3e-8, 0]])
        for k in ('vmin', 'vmax', 'cmap', 'title', 'units'):
            if k in spec:
                kw[k] = spec[k]
        if spec.get('no_cbar'):
            kw['show_cbar'] = False
        if 'labels' in spec:
            kw['additional_axis_labels'] = ['My axis %d' % i for i in
                                            range(spec['labels'])]
        name = 'image' if spec['func'] == 'plain' else spec['func']
        if spec['func'] == 'plain':
            data = data.real.copy()
        if spec['tensor']:
            data = t.as_tensor(data)
        fig = getattr(plotting_module, 'plot_' + name)(data, fig=self.fig, **kw)
        if self.fig is not None:
            self.check(fig is self.fig, 'another figure', repr(fig))
        self.check(fig is not None, 'figure not returned')
        self.fig = fig if fig is not None else plt.gcf()

    def open(self):
        self.fig = None
        self.parent = None
        if self.spec.get('subfigure'):
            self.parent = plt.figure()
            self.fig, self.other = self.parent.subfigures(1, 2)
            self.other.add_subplot().plot([1, 2])
        self.data = rand_complex(self.spec)
        self.draw(self.data)
        self.axes = self.fig.axes[:]

    def start(self):
        return (0,) * len(self.spec['dims'])

    def flat(self, index):
        return list(index)

    def unflat(self, x):
        return tuple(x)

    def slider_dims(self):
        return [(i, n) for i, n in enumerate(self.spec['dims']) if n > 1]

    def observe(self):
        found = sliders(self.fig)
        dims = self.slider_dims()
        out = [0] * len(self.spec['dims'])
        if self.check(len(found) == len(dims), 'sliders missing',
                      lambda: '%d sliders for %s' % (len(found),
                                                     self.spec['dims'])):
            for sl, (i, _) in zip(found, dims):
                given = self.spec.get('labels', 0)
                label = 'My axis %d' % i if i < given else sl.label
                self.check(sl.label == label and (i < given
                                                  or str(i) in label),
                           'wrong label', sl.label)
                out[i] = int(sl.value)
        return tuple(out)

    def wanted(self, index):
        return [apply(self.spec['func'], self.data[index])]

    def check_limits(self, im, a):
        spec = self.spec
        if spec['func'] == 'colorized' or not self.limits:
            return
        lo, hi = spec.get('vmin', a.min()), spec.get('vmax', a.max())
        if spec['func'] == 'phase' and spec.get('cmap'):
            lo, hi = spec.get('vmin', -np.pi), spec.get('vmax', np.pi)
        got = im.get_clim()
        if lo < hi:
            self.check(np.allclose(got, (lo, hi), rtol=1e-4, atol=1e-6),
                       'wrong color limits', lambda: '%s instead of %s at %s'
                       % (got, (lo, hi), self.index))

    def check_images(self):
        super().check_images()
        # All of the image is visible, unless the user has zoomed
        im = self.images()
        if self.limits and len(im) == 1:
            ax = im[0].axes
            h, w = self.spec['size']
            corners = np.array([[-.5, -.5], [w - .5, -.5], [-.5, h - .5],
                                [w - .5, h - .5]])
            xy = (im[0].get_transform() - ax.transData).transform(corners)
            eps = 1e-3 * np.ptp(xy, axis=0)
            lim = np.sort([ax.get_xlim(), ax.get_ylim()], axis=1)
            self.check((xy.min(axis=0) >= lim[:, 0] - eps).all()
                       and (xy.max(axis=0) <= lim[:, 1] + eps).all()
                       and (np.ptp(lim, axis=1)
                            <= np.ptp(xy, axis=0) * 1.01 + eps).all(),
                       'wrong extent', lambda: 'the image covers %s of %s' % (
                           xy.tolist(), lim.tolist()))

    def after_key(self, key, ax):
        by = {'up': -1, 'down': 1}.get(key)
        dims = self.slider_dims()
        if by is None or ax is None or not dims:
            return {self.index}, False
        # An odometer, whose last digit turns the fastest
        shape = [n for _, n in dims]
        pos = int(np.ravel_multi_index([self.index[i] for i, _ in dims],
                                       shape))
        new = np.unravel_index((pos + by) % int(np.prod(shape)), shape)
        out = list(self.index)
        for (i, _), x in zip(dims, new):
            out[i] = int(x)
        return {tuple(out)}, True

    def after_scroll(self, key, ax):
        return {self.index}, False

    def zoom_colorbar(self, ev):
        """The user picks other color limits with the mouse"""
        ims = self.images()
        if not ims or ims[0].colorbar is None \
                or self.spec['func'] == 'colorized':
            return
        tb = self.root.canvas.toolbar
        ax = ims[0].colorbar.ax
        self.limits = False
        tb.zoom()
        try:
            ev.drag(self.fig, [ev.position(ax, p) for p in
                               ((.5, .3), (.5, .5), (.5, .6))])
        finally:
            tb.zoom()

    def update(self, seed, how):
        spec = self.spec = dict(self.spec)
        keep = True
        if how == 'shape':
            r = random.Random(seed)
            keep = False
            spec['size'] = [r.randint(3, 6), r.randint(3, 6)]
            if r.random() < .5:
                spec['dims'] = [r.choice([1, 2, 3]) for _ in
                                range(r.randint(0, 2))]
        old = self.index
        self.data = rand_complex(spec, seed)
        self.draw(self.data)
        seen = self.observe()
        n = spec['dims']
        # The user goes on looking at the same slice, if it is still there
        allowed = {old} if keep else {old, (0,) * len(n)}
        self.check(seen in allowed and len(seen) == len(n), 'wrong index',
                   lambda: 'after an update, shows %s instead of %s' % (
                       seen, sorted(allowed)))
        self.index = seen
        self.sure = self.limits = True

    def clear(self):
        """The user clears the figure, and draws the image again"""
        self.fig.clear()
        self.draw(self.data)
        seen = self.observe()
        self.check(seen in {self.index, (0,) * len(seen)}, 'wrong index',
                   lambda: 'after clearing, shows %s' % (seen,))
        self.index = seen
        self.sure = self.limits = True


# These show the model
LIVE = (Compare, Wavefront)
KINDS = {'compare': Compare, 'wavefront': Wavefront, 'inspect': Inspect,
         'map': OwnMap, 'image': Image}


# ----------------------------------------------------------------------- run
class Session:
    def __init__(self, sc, run):
        self.sc, self.run = sc, run
        sys = sc['system']
        self.ds = W.make_dataset(sys['data'], FaultyDataset)
        self.faults = self.ds.faults = Faults()
        make = (lambda: W.make_tiny(sys['tiny'], self.ds)) if 'tiny' in sys \
            else (lambda: W.make_model(sys['model'], self.ds))
        self.model, self.twin = make(), make()
        self.viewers = []
        self.ev = Events(run)
        self.in_background = False
        self.epochs = 0

    def data(self):
        return [self.ds.patterns.clone(), self.ds.mask.clone(),
                self.ds.translations.clone()]

    def open(self, spec):
        if len(self.viewers) > 4:
            return
        v = KINDS[spec['kind']](spec, self)
        self.viewers.append(v)
        if self.sc['toolbar'] and v.root.canvas.toolbar is None:
            NavigationToolbar2(v.root.canvas)
        if self.sc['redraw']:
            v.root.canvas.draw()
        v.verify({v.index}, True, False)
        self.run.probe('viewer ' + spec['kind'])
        self.run.note(spec)

    def pick(self, k):
        alive = [v for v in self.viewers
                 if plt.fignum_exists(v.root.number)]
        self.viewers = alive
        return alive[k % len(alive)] if alive else None

    def event(self, op):
        v = self.pick(op[1])
        if v is None or (op[0] in ('zoom', 'nav', 'cbar')
                         and v.root.canvas.toolbar is None):
            return
        raised = len(self.faults.raised)
        before = {id(w): w.index for w in self.viewers}
        rng = t.get_rng_state()
        self.faults.armed = not self.in_background
        self.requests.clear()
        old = v.index
        if op[0] in ('zoom', 'nav'):
            # The view may be anything now
            v.limits = v.limits and not isinstance(v, Image)
        try:
            allowed, moved = v.act(op, self.ev)
        finally:
            self.faults.armed = False
        failed = len(self.faults.raised) > raised
        errors, self.errors[:] = self.errors[:], []
        self.report(errors, op)
        if failed:
            allowed = allowed | {old}
            if isinstance(v, Map) or op[0] == 'slide':
                # A drag may pass by other ones
                v.sure = False
                allowed |= {v.observe()} if op[0] == 'slide' else set()
            self.run.probe('fault:read_error')
        self.run.check(t.equal(rng, t.get_rng_state()),
                       'a viewer used random numbers')
        if self.in_background:
            # The model is being changed by the other thread
            v.sure = v.sure and not isinstance(v, LIVE)
            if isinstance(v, LIVE):
                moved = False
        v.verify(allowed, moved, failed)
        if self.in_background and isinstance(v, LIVE):
            v.sure = False
        if moved and not failed and not self.in_background:
            self.run.check(v.root.canvas in self.requests, 'not redrawn',
                           'after %s' % (op,))
            self.run.probe('moves ' + v.spec['kind'])
        if self.sc['redraw']:
            v.root.canvas.draw()
        # The other viewers did not move
        for w in self.viewers:
            if w is not v:
                self.run.check(w.observe() == before[id(w)],
                               'another viewer moved', lambda: '%s in %s '
                               'moved the %s from %s to %s' % (
                                   op, v.spec['kind'], w.spec['kind'],
                                   before[id(w)], w.observe()))
                w.index = w.observe()
        self.run.note(op, v.index, moved)

    def report(self, errors, op=None):
        for e in errors:
            if 'injected failure' not in str(e):
                tb = ''.join(traceback.format_exception(e)[-4:])
                self.run.bad('exception in a callback', '%s: %r\n%s' % (
                    op, e, tb))
            # Its frames would keep widgets alive
            while e is not None:
                e.__traceback__, e = None, e.__context__

    def epoch(self, events=()):
        sys = self.sc['system']
        kw = {'subset': [0]} if S.kind_of(sys) == 'rpi' else {}
        # After this, nobody has to show the current model yet
        for v in self.viewers:
            if isinstance(v, LIVE):
                v.sure = False
        events = list(events)
        self.epochs += 1
        for model, thread in ((self.twin, False), (self.model, bool(events))):
            t.manual_seed(self.sc['seed'] + self.epochs)
            self.in_background = thread
            self.pending = events if thread else []
            try:
                for loss in model.Adam_optimize(
                        1, self.ds, thread=thread, lr=.01, batch_size=2,
                        **kw):
                    pass
            finally:
                self.in_background = False
                self.pending = []
        bad = W.diff_state(W.state(self.twin), W.state(self.model))
        self.run.check(not bad, 'the reconstruction was disturbed', bad)

    def reuse(self, v):
        """The user needs the figure of an image for something else"""
        if not isinstance(v, Image):
            return
        self.viewers.remove(v)
        v.fig.clear()
        ax = v.fig.add_subplot()
        ax.imshow(np.eye(4))
        for key in ('up', 'down', 'right'):
            self.ev.key(v.fig, key, ax)
        self.ev.drag(v.fig, [self.ev.position(ax)])
        self.report(self.errors, 'reuse')
        self.run.check(v.fig.axes == [ax] and len(ax.images) == 1
                       and np.array_equal(array_of(ax.images[0]), np.eye(4)),
                       'figure of the user changed')
        self.run.probe('figures used for something else')

    def op(self, op):
        kind = op[0]
        if kind in ('key', 'scroll', 'slide', 'zoom', 'nav', 'cbar', 'pick'):
            state, data = W.state(self.model), self.data()
            grads = [p.grad for p in self.model.parameters()]
            self.event(op)
            self.run.check(not W.diff_state(state, W.state(self.model)),
                           'a viewer changed the model')
            self.run.check(all(t.equal(a, b) for a, b in
                               zip(data, self.data())),
                           'a viewer changed the dataset')
            self.run.check(all(a is b.grad for a, b in
                               zip(grads, self.model.parameters())),
                           'a viewer changed gradients')
            return
        self.run.note(op)
        if kind == 'open':
            self.open(op[1])
        elif kind == 'epoch':
            self.epoch()
        elif kind == 'background':
            self.epoch(op[1])
            self.run.probe('background epochs')
        elif kind == 'own':
            plt.figure().add_subplot().plot([1, 2])
        elif kind == 'close':
            v = self.pick(op[1])
            if v is not None:
                plt.close(v.root)
                self.pick(0)
                self.run.probe('fault:figure_closed')
        elif kind == 'reuse':
            self.reuse(self.pick(op[1]))
        elif kind == 'fail':
            n = self.faults.counts.get('dataset', 0)
            self.faults.entries = {('dataset', n + op[1]): op[2]}
        elif kind == 'change':
            r = np.random.RandomState(op[2])
            if op[1] == 'mask':
                h, w = self.ds.mask.shape
                self.ds.mask[r.randint(h), r.randint(w)] ^= True
            else:
                self.ds.patterns[r.randint(len(self.ds))] += r.randint(1, 5)
            for v in self.viewers:
                if isinstance(v, (Compare, Inspect)):
                    v.sure = False
        elif kind in ('update', 'clear'):
            v = self.pick(op[1])
            if kind == 'update' and isinstance(v, (OwnMap, Image)):
                v.update(*op[2:])
            elif kind == 'clear' and isinstance(v, Image):
                v.clear()
            else:
                return
            v.verify({v.index}, True, False)
            self.run.probe('viewers drawn again')


def run(sc, run):
    s = Session(sc, run)
    s.pending = []
    s.requests = set()
    s.errors = []

    def draw_idle(canvas, *args, **kw):
        s.requests.add(canvas)

    def failing(e=None, *args, **kw):
        s.errors.append(sys.exc_info()[1])

    def ui(canvas, action):
        if s.pending:
            s.event(s.pending.pop(0))

    orig = (FigureCanvasBase.draw_idle, cbook._get_running_interactive_framework,
            cbook.traceback.print_exc)
    plan = dict(sc['plan'])
    plan['ui'] = [[k, 'event'] for k in range(1, 400)]
    try:
        FigureCanvasBase.draw_idle = draw_idle
        # Exceptions in callbacks are printed, and don't end the program
        cbook._get_running_interactive_framework = lambda: 'tk'
        cbook.traceback.print_exc = failing
        with run.sim(plan, trace=False, ui_actions={'event': ui}) as sim, \
                S.quiet(), warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            s.sim = sim
            for spec in sc['viewers']:
                s.open(spec)
            for op in sc['ops']:
                s.op(op)
    finally:
        (FigureCanvasBase.draw_idle, cbook._get_running_interactive_framework,
         cbook.traceback.print_exc) = orig
        plt.close('all')
    s.report(s.errors)
    run.tags += ['model:' + S.kind_of(sc['system'])]
    run.nontrivial = any(v for k, v in run.probes.items()
                         if k.startswith('moves'))
