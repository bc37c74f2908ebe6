"""Datasets which are cut, padded, binned, split, saved and loaded again keep
every pattern together with its position, its intensity and the detector"""
import copy
import os
import warnings
import numpy as np
import torch as t
from matplotlib import pyplot as plt
from cdtools.datasets import Ptycho2DDataset
from .. import vfs
from .p10 import attempt, gen_fault


def generate(rnd):
    spec = {'n': rnd.randint(2, 14), 'size': [rnd.randint(3, 13),
                                              rnd.randint(3, 13)],
            'seed': rnd.randrange(10**6), 'mask': rnd.random() < .6,
            'qe': rnd.random() < .4, 'bg': rnd.random() < .5,
            'intensities': rnd.random() < .5, 'nan': rnd.random() < .2,
            'dtype': rnd.choice(['float32', 'float32', 'float64']),
            'basis': rnd.choice(['np', 'tensor'])}
    ops = []
    for _ in range(rnd.randint(2, 9)):
        op = rnd.choice(['pad', 'pad', 'downsample', 'downsample', 'remove',
                         'crop', 'split', 'to', 'get_as', 'restart',
                         'restart', 'inspect', 'bad_crop', 'bad_remove',
                         'copy', 'get', 'loader', 'save', 'crash'])
        e = {'op': op, 'arg': rnd.randrange(10**6),
             'pick': rnd.randrange(1000)}
        if op == 'pad':
            n = rnd.choice([0, 2, 4, 4])
            e['by'] = [rnd.randint(0, 3) for _ in range(n)] if n \
                else rnd.randint(1, 3)
            e['value'] = rnd.choice([None, None, 0, 1.5])
            e['mask'] = rnd.choice([None, None, True, False])
        elif op == 'downsample':
            e['by'] = rnd.choice([None, 1, 2, 3])
        elif op in ('to', 'get_as'):
            e['dtype'] = rnd.choice(['float32', 'float64', 'float16']
                                    if op == 'get_as' else
                                    ['float32', 'float64'])
            e['how'] = rnd.choice(['kw', 'positional', 'device'])
        elif op == 'restart':
            e['cut'] = rnd.choice([None, False])
            e['fault'] = gen_fault(rnd)
        ops.append(e)
    if rnd.random() < .03:
        # A large scan
        spec['n'] = rnd.choice([4999, 5000, 5001, 7000, 10000, 12501])
        spec['size'] = [rnd.randint(3, 4), rnd.randint(3, 4)]
        ops = [e for e in ops if e['op'] not in (
            'inspect', 'crash', 'loader')][:3]
        ops.insert(rnd.randint(0, len(ops)), {
            'op': 'split', 'arg': rnd.randrange(10**6),
            'pick': rnd.randrange(1000)})
    return {'spec': spec, 'ops': ops, 'plan': {}}


class Ref:
    """What a dataset has to contain"""

    def __init__(self, spec):
        r = np.random.RandomState(spec['seed'])
        n, (h, w) = spec['n'], spec['size']
        self.p = r.poisson(50, (n, h, w)).astype(float)
        self.bad = np.zeros((h, w), dtype=bool)
        if spec['nan']:
            self.bad = r.uniform(size=(h, w)) < .05
        self.m = np.ones((h, w), dtype=bool)
        if spec['mask']:
            self.m = r.uniform(size=(h, w)) > .15
        self.t = r.normal(size=(n, 3)) * 1e-6
        self.q = r.uniform(.5, 1.5, (h, w)) if spec['qe'] else None
        self.b = r.uniform(0, 2, (h, w)) if spec['bg'] else None
        self.i = r.uniform(.5, 1.5, n) if spec['intensities'] else None
        self.basis = np.array([[0, -2e-5], [-3e-5, 0], [0, 0]])
        self.distance = .5
        self.dtype = spec['dtype']
        self.get_dtype = None
        self.sent = None

    def make(self, spec):
        p = self.p.copy()
        p[0][self.bad] = np.nan
        dt = getattr(t, spec['dtype'])
        ds = Ptycho2DDataset(
            t.as_tensor(self.t, dtype=dt), t.as_tensor(p, dtype=dt),
            intensities=self.i, wavelength=1e-9, detector_geometry={
                'distance': self.distance, 'corner': None,
                'basis': t.as_tensor(self.basis, dtype=t.float32)
                if spec['basis'] == 'tensor' else self.basis.copy()},
            mask=self.m.copy() if spec['mask'] else None, qe_mask=self.q,
            background=self.b)
        self.p[0][self.bad] = 0
        self.m = self.m & ~self.bad
        return ds

    def keep(self, which):
        self.p, self.t = self.p[which], self.t[which]
        if self.i is not None:
            self.i = self.i[which]

    def pad(self, by, value, mask):
        if isinstance(by, int):
            by = [by] * 4
        elif len(by) == 2:
            by = [by[0], by[0], by[1], by[1]]
        pad = ((by[2], by[3]), (by[0], by[1]))
        self.p = np.pad(self.p, ((0, 0),) + pad, constant_values=value)
        self.m = np.pad(self.m, pad, constant_values=not mask)
        if self.q is not None:
            self.q = np.pad(self.q, pad, constant_values=1)
        if self.b is not None:
            self.b = np.pad(self.b, pad, constant_values=0)

    def downsample(self, f):
        def blocks(x):
            h, w = x.shape[-2] // f, x.shape[-1] // f
            x = x[..., :h * f, :w * f]
            return x.reshape(x.shape[:-2] + (h, f, w, f)).swapaxes(-2, -3)
        self.p = blocks(self.p * self.m).sum((-1, -2))
        if self.q is not None:
            self.q = blocks(self.q * self.m).mean((-1, -2))
            self.m = blocks(self.m).any((-1, -2))
        else:
            self.m = blocks(self.m).all((-1, -2))
        if self.b is not None:
            self.b = blocks(self.b).sum((-1, -2))
        self.basis = self.basis * f

    def restart(self, cut):
        if cut:
            self.p = np.maximum(self.p, 0)
        self.dtype = 'float32'
        self.get_dtype = self.sent = None


def as_np(x):
    if isinstance(x, t.Tensor):
        x = x.detach().numpy()
    return np.asarray(x)


def close(a, b, atol=0.):
    a = as_np(a)
    return a.shape == b.shape and np.allclose(a, b, rtol=3e-6, atol=atol)


def check(run, ds, ref, where):
    """Compares a dataset with what it has to contain"""
    def want(cond, kind, detail=''):
        return run.check(cond, kind, lambda: '%s; %s' % (
            detail() if callable(detail) else detail, where))

    n = len(ref.p)
    want(len(ds) == n, 'length', lambda: '%d instead of %d' % (len(ds), n))
    want(close(ds.patterns, ref.p), 'patterns', lambda: 'shapes %s, %s' % (
        tuple(ds.patterns.shape), ref.p.shape))
    want(close(ds.translations, ref.t), 'translations')
    want(ds.patterns.dtype == getattr(t, ref.dtype), 'dtype',
         lambda: ds.patterns.dtype)
    want(ds.translations.dtype == getattr(t, ref.dtype), 'dtype',
         lambda: ds.translations.dtype)
    want(ds.mask.dtype == t.bool and np.array_equal(as_np(ds.mask), ref.m),
         'mask', lambda: '%s %s instead of %s' % (
             ds.mask.dtype, tuple(ds.mask.shape), ref.m.shape))
    for name, x in (('qe_mask', ref.q), ('background', ref.b),
                    ('intensities', ref.i)):
        got = getattr(ds, name)
        want((got is None) == (x is None) and (x is None or close(got, x)),
             name)
        # All of these are documented to be sent along
        if ref.sent and got is not None and name != 'intensities':
            want(got.dtype == getattr(t, ref.sent), 'dtype of ' + name,
                 lambda: got.dtype)
    if not want(isinstance(ds.detector_geometry, dict), 'detector geometry',
                lambda: repr(ds.detector_geometry)):
        return
    want(close(ds.detector_geometry['basis'], ref.basis), 'detector basis',
         lambda: '%s instead of %s' % (ds.detector_geometry['basis'],
                                       ref.basis))
    want(abs(float(ds.detector_geometry['distance']) - ref.distance) < 1e-6,
         'distance')


def get(run, ds, ref, op, where):
    """What a reconstruction gets"""
    n = len(ref.p)
    r = np.random.RandomState(op['arg'])
    ks = r.randint(0, n, 3)
    index = [int(ks[0]), slice(None), slice(int(ks[0]), n, 2), ks.tolist(),
             t.as_tensor(ks), -1][op['pick'] % 6]
    (i, trans), pats = ds[index]
    j = as_np(index) if isinstance(index, (list, t.Tensor)) else index
    tol = 2e-3 if ref.get_dtype == 'float16' else 3e-6
    a, b = as_np(pats).astype(float), ref.p[j]
    ok = a.shape == b.shape and np.allclose(a, b, rtol=tol)
    run.check(ok, 'wrong pattern', where)
    a, b = as_np(trans).astype(float), ref.t[j]
    ok = a.shape == b.shape and np.allclose(
        a, b, rtol=tol, atol=1e-7 if tol > 1e-3 else 0.)
    run.check(ok, 'wrong position', where)
    dt = getattr(t, ref.get_dtype or ref.dtype)
    run.check(pats.dtype == dt and trans.dtype == dt, 'dtype of an item',
              '%s, %s instead of %s; %s' % (pats.dtype, trans.dtype, dt,
                                            where))


def run(sc, run):
    warnings.simplefilter('ignore')
    ref = Ref(sc['spec'])
    ds = ref.make(sc['spec'])
    check(run, ds, ref, 'constructor')
    things = [[ds, ref]]
    run.nontrivial = True
    folder = run.scratch()
    for oi, op in enumerate(sc['ops']):
        where = 'operation %d %s' % (oi, op)
        e = things[op['pick'] % len(things)]
        with run.sim({}, trace=False), vfs.disk() as disk:
            done = apply(run, op, e, things, folder, where, disk)
        for k, v in disk.fired.items():
            run.probe('fault:' + k, v)
        if not done:
            continue
        run.tags.append(op['op'])
        for d, r, *_ in things:
            check(run, d, r, where)
        if run.violations:
            return
    for d, r, *_ in things:
        run.note(as_np(d.patterns).tobytes(), as_np(d.translations).tobytes())
    plt.close('all')


def raises(run, fn, kind, where):
    try:
        fn()
    except (ValueError, IndexError, RuntimeError):
        run.probe('refused')
        return
    run.bad(kind, where)


def apply(run, op, e, things, folder, where, disk):
    ds, ref = e[:2]
    n, r = len(ref.p), np.random.RandomState(op['arg'])
    name = op['op']
    if name == 'pad':
        kw = {k: op[k] for k in ('value', 'mask') if op[k] is not None}
        by = tuple(op['by']) if isinstance(op['by'], list) else op['by']
        ds.pad(by, **kw)
        ref.pad(op['by'], op['value'] or 0, op['mask'] is not False)
    elif name == 'downsample':
        f = op['by'] or 2
        if min(ref.p.shape[-2:]) < f:
            return False
        ds.downsample(*([f] if op['by'] else []))
        ref.downsample(f)
    elif name == 'remove':
        mask = r.uniform(size=n) < .4
        mask[r.randint(n)] = False
        ds.remove_translations_mask(t.as_tensor(mask))
        ref.keep(~mask)
    elif name == 'crop':
        c = ref.t[r.randint(n), :2]
        box = [c[0] - abs(r.normal()) * 1e-6, c[0] + abs(r.normal()) * 1e-6,
               c[1] - abs(r.normal()) * 1e-6, c[1] + abs(r.normal()) * 1e-6]
        # Positions right at the edge are inside, unless they were changed by
        # the conversion to another type
        x, y = as_np(ds.translations)[:, :2].astype(float).T
        if op['arg'] % 3 == 0:
            i, j = r.randint(n, size=2)
            box = [min(x[i], x[j]), max(x[i], x[j]),
                   min(y[i], y[j]), max(y[i], y[j])]
        keep = (x >= box[0]) & (x <= box[1]) & (y >= box[2]) & (y <= box[3])
        if op['pick'] % 2:
            box = [box[1], box[0], box[3], box[2]]
        elif op['pick'] % 3:
            box = [box[0], box[1], box[3], box[2]]
        ds.crop_translations(tuple(float(v) for v in box))
        ref.keep(keep)
    elif name == 'bad_crop':
        raises(run, lambda: ds.crop_translations((1., 2., 1., 2.)),
               'empty crop accepted', where)
    elif name == 'bad_remove':
        raises(run, lambda: ds.remove_translations_mask(
            t.zeros(n + 1, dtype=t.bool)), 'wrong mask accepted', where)
    elif name == 'split':
        if n < 2 or len(things) > 6:
            return False
        a, b = ds.split()
        # which part a pattern is in is up to cdtools, but each is in one
        pos = [[np.flatnonzero(np.all(np.abs(
            as_np(x) - ref.t) <= 1e-6 * np.abs(ref.t), axis=1))
            for x in part.translations] for part in (a, b)]
        ids = [[int(k[0]) for k in part if len(k)] for part in pos]
        run.check(sorted(ids[0] + ids[1]) == list(range(n)), 'split',
                  'parts %s; %s' % (ids, where))
        again = ds.split()
        run.check(len(again[0]) == len(a) and all(
            t.equal(x.translations, y.translations)
            for x, y in zip(again, (a, b))), 'split not reproducible', where)
        if run.violations:
            return True
        for part, which in zip((a, b), ids):
            pr = copy.deepcopy(ref)
            pr.keep(which)
            if len(which):
                things.append([part, pr])
    elif name == 'copy':
        if len(things) > 6:
            return False
        things.append([copy.deepcopy(ds), copy.deepcopy(ref)])
    elif name in ('to', 'get_as'):
        dt = getattr(t, op['dtype'])
        f = getattr(ds, name)
        if op['how'] == 'kw':
            f(dtype=dt)
        elif op['how'] == 'positional':
            f(dt)
        else:
            f('cpu', dt)
        if name == 'to':
            ref.dtype = ref.sent = op['dtype']
        else:
            ref.get_dtype = op['dtype']
    elif name == 'restart':
        path = os.path.join(folder, 'd.cxi')
        ds.to_cxi(path)
        kw = {} if op['cut'] is None else {'cut_zeros': op['cut']}
        e[0] = attempt(run, disk, op['fault'], lambda:
                       Ptycho2DDataset.from_cxi(path, **kw))
        ref.restart(op['cut'] is None)
    elif name == 'save':
        # Overwrites what was saved before
        ds.to_cxi(os.path.join(folder, 'durable.cxi'))
        things[0][2:] = [copy.deepcopy(ref)]
    elif name == 'crash':
        # The program dies, and only what was saved is left
        if len(things[0]) < 3:
            return False
        ref = copy.deepcopy(things[0][2])
        ref.restart(True)
        things[:] = [[Ptycho2DDataset.from_cxi(
            os.path.join(folder, 'durable.cxi')), ref, things[0][2]]]
        run.probe('fault:crash_and_restart')
    elif name == 'inspect':
        if n < 4 or min(ref.p.shape[-2:]) < 3:
            return False
        ds.inspect(logarithmic=bool(op['arg'] % 2), plot_mask=True)
        plt.close('all')
    elif name == 'get':
        get(run, ds, ref, op, where)
    elif name == 'loader':
        t.manual_seed(op['arg'])
        seen = []
        for (i, trans), pats in t.utils.data.DataLoader(
                ds, batch_size=3, shuffle=True):
            j = i.numpy()
            seen += j.tolist()
            tol = 2e-3 if ref.get_dtype == 'float16' else 3e-6
            run.check(np.allclose(as_np(pats).astype(float), ref.p[j],
                                  rtol=tol) and np.allclose(
                as_np(trans).astype(float), ref.t[j], rtol=tol,
                atol=1e-7 if tol > 1e-3 else 0.), 'loader', where)
        run.check(sorted(seen) == list(range(n)), 'loader', where)
    return True
