"""Synthetic experiments: datasets, user-written models, and the models of
cdtools in all of their configurations. Everything is made from plain data."""
import random
import numpy as np
import torch as t
import cdtools
from cdtools import tools
from cdtools.datasets import Ptycho2DDataset
from cdtools.models import (CDIModel, SimplePtycho, FancyPtycho,
                            MultislicePtycho, Bragg2DPtycho, RPI)
from cdtools.reconstructors import (AdamReconstructor, SGDReconstructor,
                                    LBFGSReconstructor)

LAM, DIST, PIX = 1e-9, 0.1, 20e-6


# ------------------------------------------------------------------ datasets
def gen_dataset(rnd, square=False, n=None, dtype=None):
    h = rnd.choice([10, 12, 13])
    w = h if square else rnd.choice([10, 12, 14])
    spec = {'n': n or rnd.randint(4, 9), 'size': [h, w],
            'seed': rnd.randrange(10**6),
            'mask': rnd.random() < .6, 'qe': rnd.random() < .3,
            'bg': rnd.random() < .4, 'intensities': rnd.random() < .3,
            'corner': rnd.random() < .3,
            'dtype': dtype or 'float32'}
    more = rng('geometry', spec['seed'])
    if more.random() < .4:
        spec['geo'] = gen_geometry(more)
    if more.random() < .2:
        spec['tilt'] = more.choice([.2, -.3, .6])
    if more.random() < .2:
        spec['orientation'] = more.choice([.2, -.3])
    return spec


def gen_geometry(rnd):
    """Factors for the wavelength, distance and pixel size"""
    return [rnd.choice([1., 1., .7, 1.6]), rnd.choice([1., 1.5]),
            rnd.choice([.75, 1.25, 2.])]


def rotation(angle):
    c, s = np.cos(angle), np.sin(angle)
    return np.array([[1., 0., 0.], [0., c, s], [0., -s, c]])


def make_dataset(spec, cls=Ptycho2DDataset):
    r = np.random.RandomState(spec['seed'])
    n, (h, w) = spec['n'], spec['size']
    dtype = getattr(t, spec.get('dtype', 'float32'))
    lam, dist, pix = (a * b for a, b in zip((LAM, DIST, PIX), spec.get(
        'geo', (1., 1., 1.))))
    trans = np.zeros((n, 3))
    trans[:, :2] = r.uniform(-1, 1, (n, 2)) * 3 * lam * dist / (12 * pix)
    if spec.get('depth'):
        trans[:, 2] = np.random.RandomState(spec['seed'] + 1).uniform(
            -1, 1, n) * spec['depth']
    y, x = np.mgrid[:h, :w]
    base = 200 * np.exp(-((y - h / 2)**2 + (x - w / 2)**2) / 8) + 1
    pats = r.poisson(base[None] * r.uniform(.5, 1.5, (n, h, w)))
    kw = {}
    if spec.get('mask'):
        mask = r.uniform(size=(h, w)) > .1
        mask[h // 2 - 1:h // 2 + 1, w // 2 - 1:w // 2 + 1] = True
        kw['mask'] = mask
    if spec.get('qe'):
        kw['qe_mask'] = r.uniform(.8, 1.2, (h, w)).astype(np.float32)
    if spec.get('bg'):
        kw['background'] = r.uniform(.1, 1., (h, w)).astype(np.float32)
    if spec.get('intensities'):
        kw['intensities'] = r.uniform(.8, 1.2, n).astype(np.float32)
    basis = t.tensor([[0, -pix], [-pix, 0], [0, 0]], dtype=t.float32)
    corner = None
    if spec.get('corner'):
        corner = np.array([w * pix / 2, h * pix / 2, dist])
    if spec.get('tilt'):
        # The detector is at another angle, seen from the sample
        rot = rotation(spec['tilt'])
        basis = t.as_tensor(rot @ basis.numpy(), dtype=t.float32)
        corner = None if corner is None else rot @ corner
    if spec.get('orientation'):
        kw['sample_info'] = {'orientation': rotation(spec['orientation'])}
    return cls(t.as_tensor(trans, dtype=dtype), t.as_tensor(pats, dtype=dtype),
               wavelength=lam,
               detector_geometry={'distance': dist, 'basis': basis,
                                  'corner': corner}, **kw)


# -------------------------------------------------------- a user-written model
class TinyModel(CDIModel):
    """A model as a user would write it. It works in double precision, so
    results can be compared tightly, and its loss is a plain sum of squares."""

    def __init__(self, shape, n, seed=0, normalizer=None, reg=True, mask=None,
                 frozen=False):
        super().__init__()
        r = np.random.RandomState(seed)
        k = 2
        self.obj = t.nn.Parameter(t.as_tensor(
            r.normal(size=(k,) + tuple(shape))
            + 1j * r.normal(size=(k,) + tuple(shape))))
        self.weights = t.nn.Parameter(t.as_tensor(r.uniform(.5, 1.5, n)))
        self.amp = t.nn.Parameter(t.as_tensor(
            r.uniform(.1, 1., tuple(shape))))
        # Not every parameter is an array
        self.gain = t.nn.Parameter(t.tensor(
            r.uniform(.8, 1.2) if seed % 2 else [r.uniform(.8, 1.2)],
            dtype=t.float64))
        self.fixed = t.nn.Parameter(t.as_tensor(r.uniform(.5, 1., (k,))),
                                    requires_grad=False)
        if frozen:
            self.amp.requires_grad = False
        self.register_buffer('kvec', t.as_tensor(
            r.normal(size=(3, k)) / (3 * LAM * DIST / (12 * PIX))))
        if mask is not None:
            self.register_buffer('mask', mask.clone())
        if normalizer == 'amplitude':
            self.loss_normalizer = tools.losses.AmplitudeMSENormalizer()
        elif normalizer == 'intensity':
            self.loss_normalizer = tools.losses.IntensityMSENormalizer()
        elif normalizer == 'poisson':
            self.loss_normalizer = tools.losses.SimplePoissonNLLNormalizer()
        if not reg:
            self.regularizer = None
            del self.regularizer
        self.calls = []

    def interaction(self, index, translations):
        self.calls.append([np.array(index).tolist(),
                           translations.detach().clone()])
        phase = translations.to(t.float64) @ self.kvec
        wave = (self.fixed * t.exp(1j * phase))[..., None, None] * self.obj
        return self.gain * self.weights[index][:, None, None, None] * wave

    def forward_propagator(self, wavefields):
        return t.fft.fft2(wavefields, norm='ortho')

    def backward_propagator(self, wavefields):
        return t.fft.ifft2(wavefields, norm='ortho')

    def measurement(self, wavefields):
        return t.sum(t.abs(wavefields)**2, dim=-3) + self.amp**2

    def loss(self, real, sim, mask=None):
        diff = (t.sqrt(real + 1e-3) - t.sqrt(sim + 1e-3))**2
        if mask is not None:
            diff = diff * mask
        return t.sum(diff)

    def regularizer(self, factors):
        return factors[0] * t.sum(t.abs(self.obj)**2) \
            + factors[1] * t.sum(self.weights**2)


def gen_tiny(rnd):
    return {'seed': rnd.randrange(10**6),
            'normalizer': rnd.choice([None, 'amplitude', 'intensity']),
            'mask': rnd.random() < .4, 'frozen': rnd.random() < .2}


def make_tiny(spec, dataset, cls=TinyModel):
    return cls(dataset.patterns.shape[-2:], len(dataset), seed=spec['seed'],
               normalizer=spec['normalizer'], frozen=spec['frozen'],
               mask=dataset.mask if spec['mask'] else None)


# ---------------------------------------------------------- models of cdtools
KINDS = ['simple', 'fancy', 'near', 'multislice', 'bragg', 'rpi']
LOSSES = ['amplitude mse', 'intensity mse', 'poisson nll']
CLASSES = {'simple': SimplePtycho, 'fancy': FancyPtycho, 'near': FancyPtycho,
           'multislice': MultislicePtycho, 'bragg': Bragg2DPtycho, 'rpi': RPI}


def maybe(rnd, d, p, key, *values):
    if rnd.random() < p:
        d[key] = rnd.choice(values)


def gen_model(rnd, kind=None):
    """A random configuration of one of the models"""
    kind = kind or rnd.choice(KINDS)
    kw = {}
    if kind != 'simple':
        maybe(rnd, kw, .5, 'loss', *LOSSES)
        maybe(rnd, kw, .2, 'saturation', 150., 400.)
        if kind not in ('rpi',):
            kw['obj_padding'] = rnd.choice([2, 4])
            maybe(rnd, kw, .5, 'n_modes', 2, 3)
            maybe(rnd, kw, .3, 'translation_scale', 2., .5)
            maybe(rnd, kw, .3, 'probe_support_radius', 4, 5)
            maybe(rnd, kw, .3, 'propagation_distance', 2e-6)
            maybe(rnd, kw, .2, 'units', 'nm')
            maybe(rnd, kw, .3, 'randomize_ang', .3)
    if kind in ('fancy', 'near'):
        if kw.get('n_modes', 1) > 1:
            maybe(rnd, kw, .6, 'dm_rank', 1, 2, -1)
        maybe(rnd, kw, .4, 'use_qe_mask', True)
        maybe(rnd, kw, .3, 'allow_probe_fourier_shifts', True)
        if kw.get('allow_probe_fourier_shifts'):
            maybe(rnd, kw, .5, 'simulate_probe_translation', True)
        maybe(rnd, kw, .2, 'simulate_finite_pixels', True)
        maybe(rnd, kw, .3, 'exponentiate_obj', True)
        if kw.get('exponentiate_obj'):
            maybe(rnd, kw, .4, 'phase_only', True)
    if kind == 'fancy':
        maybe(rnd, kw, .3, 'fourier_probe', True)
        if 'dm_rank' not in kw:
            maybe(rnd, kw, .3, 'n_obj_modes', kw.get('n_modes', 1))
        maybe(rnd, kw, .3, 'oversampling', 2)
        maybe(rnd, kw, .2, 'probe_fourier_crop', 1, 2)
    if kind == 'near':
        kw.pop('propagation_distance', None)
        maybe(rnd, kw, .3, 'propagation_distance', .05)
        kw['near_field'] = True
        maybe(rnd, kw, .3, 'oversampling', 2)
        kw.pop('simulate_probe_translation', None)
    if kind == 'multislice':
        kw['dz'] = 1e-6
        kw['nz'] = rnd.choice([2, 3])
        if kw.get('n_modes', 1) > 1:
            maybe(rnd, kw, .5, 'dm_rank', 1, 2, -1)
        maybe(rnd, kw, .3, 'exponentiate_obj', True)
        maybe(rnd, kw, .3, 'fourier_probe', True)
    if kind == 'bragg':
        kw['propagate_probe'] = rnd.random() < .5
        kw['correct_tilt'] = rnd.random() < .5
        maybe(rnd, kw, .2, 'lens', True)
    if kind == 'rpi':
        kw['n_modes'] = rnd.choice([1, 2])
        kw['obj_size'] = rnd.choice([[6, 6], [8, 8]])
        kw['weight_matrix'] = rnd.random() < .5
        maybe(rnd, kw, .4, 'initialization', 'uniform', 'random')
        maybe(rnd, kw, .3, 'exponentiate_obj', True)
        if kw.get('exponentiate_obj'):
            maybe(rnd, kw, .4, 'phase_only', True)
    spec = {'kind': kind, 'kw': kw, 'seed': rnd.randrange(10**6)}
    more = rng('extras', spec['seed'])
    if kind != 'simple' and more.random() < .3:
        gen_extras(more, kind, kw)
    return spec


def gen_extras(rnd, kind, kw):
    """The options which are less common"""
    if kind in ('fancy', 'near'):
        maybe(rnd, kw, .3, 'obj_view_crop', 0, 2, -2)
        maybe(rnd, kw, .3, 'scattering_mode', 'transmission', 't')
        if 'dm_rank' not in kw:
            maybe(rnd, kw, .2, 'dm_rank', 0)
    if kind == 'near':
        maybe(rnd, kw, .3, 'fourier_probe', True)
        maybe(rnd, kw, .3, 'probe_fourier_crop', 1, 2)
    if kind == 'multislice':
        maybe(rnd, kw, .3, 'obj_view_crop', 0, 2, -2)
        maybe(rnd, kw, .3, 'scattering_mode', 'transmission', 't')
        maybe(rnd, kw, .3, 'propagator_fourier_crop', 1, 2)
        maybe(rnd, kw, .3, 'probe_fourier_crop', 1, 2)
        maybe(rnd, kw, .3, 'simulate_probe_translation', True)
    if kind == 'bragg':
        maybe(rnd, kw, .3, 'obj_view_crop', 0, 2, -2)
        maybe(rnd, kw, .3, 'scattering_mode', 'transmission', 't')
        maybe(rnd, kw, .3, 'surface_normal', [0., .3, 1.], [.2, 0., -1.])
        maybe(rnd, kw, .3, 'probe_fourier_crop', [1, 1], [2, 1])
        maybe(rnd, kw, .3, 'oversampling', 2)
        maybe(rnd, kw, .3, 'padding', 2)
    if kind == 'rpi':
        maybe(rnd, kw, .4, 'probe_threshold', .1, .3)
        maybe(rnd, kw, .4, 'oversampling', 2)


def needs_square(kind):
    return kind in ('near', 'rpi')


def gen_world(rnd, kind=None, n=None):
    spec = gen_model(rnd, kind)
    data = gen_dataset(rnd, square=needs_square(spec['kind']), n=n)
    if spec['kw'].get('oversampling', 1) > 1:
        data['size'] = [12, 12] if needs_square(spec['kind']) else [12, 10]
    # The limits of what the models support at all (see DESIGN.md)
    if spec['kw'].get('simulate_finite_pixels'):
        data['size'] = [12, 12]
    if 'propagate_probe' in spec['kw']:
        # Deep enough for the propagation of the probe to matter
        more = rng('depth', spec['seed'])
        if more.random() < .7:
            data['depth'] = more.choice([2e-4, 5e-4])
    if spec['kind'] == 'rpi' and 'oversampling' in spec['kw']:
        data['bg'] = True
    if spec['kind'] == 'multislice' and 'dm_rank' in spec['kw']:
        data['intensities'] = False
    if 'tilt' in data and 'scattering_mode' in spec['kw']:
        spec['kw']['scattering_mode'] = 'reflection'
    return {'model': spec, 'data': data}


def make_model(spec, dataset):
    t.manual_seed(spec['seed'])
    cls = CLASSES[spec['kind']]
    kw = dict(spec['kw'])
    if spec['kind'] == 'rpi':
        h, w = (kw.get('oversampling', 1) * x
                for x in dataset.patterns.shape[-2:])
        r = np.random.RandomState(spec['seed'])
        y, x = np.mgrid[:h, :w]
        env = np.exp(-((y - h / 2)**2 + (x - w / 2)**2) / 20) * 30
        probe = np.stack([env, .3 * env * (x - w / 2)])
        probe = probe * np.exp(1j * r.uniform(-.2, .2, probe.shape))
        return cls.from_dataset(dataset, t.as_tensor(probe, dtype=t.complex64),
                                **kw)
    return cls.from_dataset(dataset, **kw)


def make_world(w):
    ds = make_dataset(w['data'])
    return make_model(w['model'], ds), ds


def assign(model, seed):
    """A user has better (or worse) ideas about some parameters"""
    r = np.random.RandomState(seed)

    def change(name, by, factor=True):
        p = getattr(model, name, None)
        if p is None or r.uniform() < .3:
            return
        z = r.normal(size=tuple(p.shape))
        if p.is_complex():
            z = z + 1j * r.normal(size=z.shape)
        z = t.as_tensor(by * z, dtype=p.dtype)
        # The layout in memory affects rounding
        p.data = (p.data * (1 + z) if factor else p.data + z) \
            .resolve_conj().contiguous().clone(
                memory_format=t.contiguous_format)
    change('obj', .2, False)
    change('probe', .2)
    change('weights', .2)
    change('background', .2)
    change('probe_fourier_shifts', .3, False)
    if getattr(model, 'translation_offsets', None) is not None:
        # These have to stay on the object
        p = model.translation_offsets
        p.data = t.as_tensor(r.uniform(-.4, .4, tuple(p.shape)),
                             dtype=p.dtype) / model.translation_scale


# ------------------------------------------------------------------- helpers
def state(model):
    """All parameters and buffers of a model, as independent copies"""
    return {k: v.detach().clone().resolve_conj()
            for k, v in model.state_dict().items()}


def same_tensor(a, b):
    a, b = t.as_tensor(a), t.as_tensor(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.is_complex():
        a, b = t.view_as_real(a.resolve_conj()), t.view_as_real(
            b.resolve_conj())
    if a.is_floating_point():
        return bool(t.all((a == b) | (t.isnan(a) & t.isnan(b))))
    return bool(t.equal(a, b))


def diff_state(a, b):
    """Names of the entries in which two states are not identical"""
    out = [k for k in sorted(set(a) ^ set(b))]
    out += [k for k in sorted(set(a) & set(b)) if not same_tensor(a[k], b[k])]
    return out


def close_state(a, b, rtol, atol=0.):
    """(name, error) of the entries which differ by more than rtol (relative
    to the largest value of the entry)"""
    out = []
    for k in sorted(set(a) & set(b)):
        x, y = a[k], b[k]
        if x.shape != y.shape:
            out.append((k, 'shape'))
            continue
        if not (x.is_floating_point() or x.is_complex()):
            if not t.equal(x, y):
                out.append((k, 'value'))
            continue
        if x.numel() == 0:
            continue
        both = t.isnan(x) & t.isnan(y)
        if both.any():
            x, y = x.masked_fill(both, 0), y.masked_fill(both, 0)
        err = float(t.max(t.abs(x - y)))
        scale = float(t.max(t.abs(y)))
        if not err <= rtol * scale + atol:
            out.append((k, err / (scale or 1)))
    return out


def same_float(a, b):
    a, b = float(a), float(b)
    return a == b or (a != a and b != b)


def recon(model, ds, opt, subset=None, lr_factors=None):
    kw = {}
    if lr_factors:
        kw['lr_factors'] = lr_factors
    if opt == 'adam':
        return AdamReconstructor(model, ds, subset=subset, **kw)
    if opt == 'sgd':
        return SGDReconstructor(model, ds, subset=subset, **kw)
    return LBFGSReconstructor(model, ds, subset=subset)


def rng(*key):
    return random.Random('/'.join(str(k) for k in key))
