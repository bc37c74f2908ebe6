"""What is saved describes the reconstruction: an independent calculation with
the saved quantities gives the patterns which the model predicts"""
import os
import random
import numpy as np
import torch as t
from scipy.ndimage import map_coordinates
from cdtools.datasets import Ptycho2DDataset
from cdtools.tools.data import h5_to_nested_dict
from .. import session as S, vfs, world as W
from ..common import Run, random_plan


class Trouble(Exception):
    pass


# --------------------------------------------------------------- scenarios
def generate(rnd):
    kind = rnd.choice(['simple', 'fancy', 'fancy', 'fancy', 'near',
                       'multislice', 'multislice', 'bragg', 'bragg', 'rpi'])
    sys = W.gen_world(rnd, kind, n=rnd.randint(3, 6))
    ops = []
    for i in range(rnd.randint(2, 6)):
        if rnd.random() < (.2 if i else .7):
            ops.append({'op': 'assign', 'seed': rnd.randrange(10**6)})
        u = rnd.random()
        if u < .45:
            call = S.gen_call(rnd, sys, rnd.choice(['adam', 'adam', 'sgd']),
                              max_iter=3)
            call['op'] = 'optimize'
            call['thread'] = rnd.random() < .5
            W.maybe(rnd, call, .4, 'save_after', 0, 1, 2)
            W.maybe(rnd, call, .4, 'fail_at', 0, 1, 3, 6)
            W.maybe(rnd, call, .4, 'context', 'exit', 'exception')
            call['save'] = gen_save(rnd)
            ops.append(call)
        elif u < .8:
            ops.append(dict(gen_save(rnd), op='save'))
        elif u < .87:
            ops.append({'op': 'tidy'})
        elif u < .92:
            ops.append({'op': 'center'})
        else:
            ops.append({'op': 'reload', 'h5': rnd.random() < .5})
    ops.append(dict(gen_save(rnd), op='save'))
    return {'system': sys, 'ops': ops, 'seed': rnd.randrange(10**6),
            'plan_seed': rnd.randrange(10**6), 'plan': {}}


def gen_save(rnd):
    return {'how': rnd.choice(['memory', 'h5', 'h5']),
            'args': rnd.choice([None, None, 'same', 'other']),
            'fault': rnd.choice([[]] * 4 + [[['open', 0, 'EIO', 1]],
                                            [['write', 3, 'ENOSPC', 1]]])}


def materialise(sc):
    rnd = random.Random('plan/%d' % sc['plan_seed'])
    record = []
    scenario(sc, Run(), {}, record)
    sc['plan'] = random_plan(rnd, record)
    return sc


# --------------------------------------------------- the reference (no torch)
def far_field(x):
    return np.fft.fftshift(np.fft.fft2(np.fft.ifftshift(
        x, axes=(-2, -1)), norm='ortho'), axes=(-2, -1))


def inverse_far_field(x):
    return np.fft.fftshift(np.fft.ifft2(np.fft.ifftshift(
        x, axes=(-2, -1)), norm='ortho'), axes=(-2, -1))


def near_field(x, propagator):
    return np.fft.ifft2(propagator * np.fft.fft2(x))


def onto_sample(translations, normal):
    """Moves positions along the beam, until they are in the sample's plane"""
    n = np.asarray(normal, dtype=np.float64).ravel()
    out = np.array(translations, dtype=np.float64)
    out[:, 2] = -(n[0] * out[:, 0] + n[1] * out[:, 1]) / n[2]
    return out


def to_pixels(basis, positions):
    return positions @ np.linalg.pinv(np.asarray(basis, dtype=np.float64)).T


def resample(x, shape):
    """Another number of pixels in the same field of view"""
    pad = [shape[0] - x.shape[-2], shape[1] - x.shape[-1]]
    if not any(pad):
        return x
    widths = [(0, 0)] * (x.ndim - 2) + [(p // 2, p - p // 2) for p in pad]
    return inverse_far_field(np.pad(far_field(x), widths))


def shifted(x, by):
    """Fourier interpolation. by: (..., 2), in pixels"""
    fi = np.fft.fftfreq(x.shape[-2])
    fj = np.fft.fftfreq(x.shape[-1])
    phase = np.exp(-2j * np.pi * (by[..., 0, None, None] * fi[:, None]
                                  + by[..., 1, None, None] * fj))
    return np.fft.ifft2(np.fft.fft2(x) * phase)


def transmitted(probes, obj, pix, back=False):
    """Exit waves (position, mode, y, x) of the probes"""
    whole = np.floor(pix).astype(int)
    part = (pix - whole)[:, None]
    h, w = probes.shape[-2:]
    views = np.stack([obj[..., i:i + h, j:j + w] for i, j in whole])
    if views.ndim == 3:
        views = views[:, None]
    out = shifted(probes, part) * views
    return shifted(out, -part) if back else out


def blurred(waves):
    """Intensity, averaged over pixels which are as wide as their spacing"""
    n = waves.shape[-1]
    widths = [(0, 0)] * (waves.ndim - 2) + [(n // 2, n - n // 2)] * 2
    field = np.fft.fftshift(np.fft.ifft2(waves), axes=(-2, -1))
    fine = np.abs(np.fft.fft2(np.pad(field, widths)))**2
    autocorrelation = np.fft.fftshift(np.fft.ifft2(fine.sum(axis=-3)),
                                      axes=(-2, -1))
    pixel = np.sinc(np.linspace(-1, 1, 2 * n))
    return np.abs(np.fft.fft2(autocorrelation * pixel[:, None] * pixel))[
        ..., ::2, ::2]


def detected(waves, r, sd):
    if sd.get('simulate_finite_pixels'):
        intensity = blurred(waves)
    else:
        intensity = np.sum(np.abs(waves)**2, axis=-3)
    k = int(sd.get('oversampling', 1))
    if k > 1:
        n, h, w = intensity.shape
        intensity = intensity.reshape(n, h // k, k, w // k, k).mean((2, 4))
    if sd.get('qe_mask') is not None:
        intensity = np.asarray(sd['qe_mask']) * intensity
    if 'background' in r:
        intensity = intensity + np.asarray(r['background'])
    if sd.get('saturation') is not None:
        intensity = np.clip(intensity, 0, float(sd['saturation']))
    return intensity


def pixel_positions(kind, r, sd, translations):
    low = np.asarray(sd['min_translation'], dtype=np.float64)
    if kind == 'simple':
        return to_pixels(r['probe_basis'],
                         onto_sample(translations, [0, 0, 1])) - low
    basis = np.asarray(r['obj_basis'], dtype=np.float64)
    normal = np.cross(basis[:, 1], basis[:, 0]) if kind == 'bragg' \
        else sd['surface_normal']
    return to_pixels(basis, onto_sample(r['translations'], normal)) - low


def patterns(kind, r, translations, idx):
    """What the saved results say about the positions idx"""
    sd = r['state_dict']
    probe = np.asarray(r['probe'], dtype=np.complex128)
    if kind == 'rpi':
        return rpi_pattern(r, sd, probe, len(idx))
    pix = pixel_positions(kind, r, sd, translations)[idx]
    obj = np.asarray(r['obj'], dtype=np.complex128)
    if kind == 'simple':
        whole = np.round(pix).astype(int)
        h, w = probe.shape
        waves = np.stack([probe * obj[i:i + h, j:j + w] for i, j in whole])
        return np.abs(far_field(waves))**2
    if sd.get('exponentiate_obj'):
        obj = np.exp(1j * (obj.real if sd.get('phase_only') else obj))
    probe = probe * np.asarray(sd['probe_support'])
    if sd.get('fourier_probe'):
        probe = inverse_far_field(probe)
    weights = np.asarray(r['weights'])[idx]
    if weights.ndim == 1:
        probes = weights[:, None, None, None] * probe
    else:
        probes = np.einsum('nrk,kij->nrij', weights, probe)
    moved = np.zeros((len(idx), 2))
    if sd.get('probe_fourier_shifts') is not None:
        moved = moved + np.asarray(sd['probe_fourier_shifts'])[idx]
    if sd.get('simulate_probe_translation'):
        moved = moved + to_pixels(sd['det_basis'], onto_sample(
            translations, sd['surface_normal']))[idx]
    k = int(r['oversampling'])
    if moved.any():
        h, w = probe.shape[-2:]
        i, j = np.arange(h) / (h - 1), np.arange(w) / (w - 1)
        probes = probes * np.exp(2j * np.pi * k * (
            moved[:, 0, None, None] * i[:, None]
            + moved[:, 1, None, None] * j))[:, None]
    if kind == 'bragg' and sd['propagate_probe']:
        basis = np.asarray(r['obj_basis'], dtype=np.float64)
        normal = np.cross(basis[:, 1], basis[:, 0])
        depth = (onto_sample(translations, normal) - translations)[idx, 2] \
            - float(np.ravel(sd['median_propagation'])[0])
        phase = depth * 2 * np.pi / float(r['wavelength'])
        probes = near_field(probes, np.exp(1j * phase[
            :, None, None, None] * np.asarray(sd['universal_propagator'])))
    probes = resample(probes, [k * x for x in np.shape(r['background'])])
    if kind == 'multislice':
        # The last one matters when the propagator is cropped
        for layer in obj:
            probes = near_field(transmitted(probes, layer, pix),
                                sd['interslice_propagator'])
        return detected(far_field(probes), r, sd)
    waves = transmitted(probes, obj, pix, back=bool(sd.get('near_field')))
    if sd.get('near_field'):
        waves = near_field(waves, sd['angular_spectrum_propagator'])
    else:
        waves = far_field(waves)
    if kind == 'bragg' and sd['correct_tilt']:
        # k_map says where the detector pixels are: (x, y) from -1 to 1
        g = np.asarray(sd['k_map'], dtype=np.float64)
        size = np.array(waves.shape[-2:])
        at = [((g[..., 1] + 1) * size[0] - 1) / 2,
              ((g[..., 0] + 1) * size[1] - 1) / 2]
        flat = waves.reshape(-1, *size)
        flat = np.stack([map_coordinates(x.real, at, order=1,
                                         mode='grid-constant')
                         + 1j * map_coordinates(x.imag, at, order=1,
                                                mode='grid-constant')
                         for x in flat])
        waves = flat.reshape(*waves.shape[:-2], *flat.shape[-2:]) \
            * np.asarray(sd['intensity_map'])
    return detected(waves, r, sd)


def rpi_pattern(r, sd, probe, n):
    obj = np.asarray(sd['obj'], dtype=np.complex128)
    if sd.get('exponentiate_obj'):
        obj = np.exp(1j * (obj.real if sd.get('phase_only') else obj))
    obj = obj * np.asarray(sd['obj_support'])
    h, w = probe.shape[-2:]
    a, b = obj.shape[-2:]
    low = [h // 2 - a // 2, w // 2 - b // 2]
    obj = inverse_far_field(np.pad(far_field(obj), [
        (0, 0), (low[0], h - a - low[0]), (low[1], w - b - low[1])])) \
        * np.sqrt(h * w / (a * b))
    probes = np.einsum('rk,kij->rij', np.asarray(sd['weights']), probe)
    waves = (probes[:, None] * obj[None]).reshape(1, -1, h, w)
    return np.repeat(detected(far_field(waves), r, sd), n, axis=0)


# -------------------------------------------------------------------- checks
def check(run, kind, model, ds, r, where, spec):
    """r: the results, as they were saved just now"""
    run.check(list(np.ravel(r['loss_history'])) == [
        float(x) for x in model.loss_history]
        or not np.isfinite(np.ravel(r['loss_history'])).all(), 'records',
        lambda: 'losses %s instead of %s; %s' % (
            r['loss_history'], model.loss_history, where))
    run.check(int(r['epoch']) == model.epoch and str(r['training_history'])
              == model.training_history, 'records', lambda: 'epoch %s, %r; %s'
              % (r['epoch'], r['training_history'], where))
    run.check(str(r['model_class']) == W.CLASSES[kind].__name__, 'records',
              '%s; %s' % (r['model_class'], where))
    if 'loss' in spec['kw']:
        run.check(str(r['loss_function']).replace('_', ' ')
                  == spec['kw']['loss'], 'records',
                  '%s; %s' % (r['loss_function'], where))
    trans = ds.translations.to(t.float64).numpy()
    if kind == 'rpi':
        run.check(np.array_equal(r['obj'], r['state_dict']['obj'][0]),
                  'another object', where)
    if 'original_translations' in r:
        run.check(np.array_equal(np.asarray(r['original_translations'],
                                            dtype=np.float32),
                                 ds.translations.numpy()), 'positions', where)
    if not all(bool(t.isfinite(p).all()) for p in model.state_dict().values()):
        return
    idx = list(range(len(ds)))
    if kind != 'rpi':
        pix = pixel_positions(kind, r, r['state_dict'], trans)
        # There, rounding could go either way
        part = np.abs(pix % 1 - (.5 if kind == 'simple' else 0))
        idx = [i for i in idx if ((part[i] > .01) & (part[i] < .99)).all()]
    if not idx:
        return
    rnd = random.Random(where)
    idx = rnd.sample(idx, rnd.randint(1, len(idx)))
    with t.no_grad():
        if kind == 'rpi':
            want = t.cat([model.forward(t.tensor([i])) for i in idx]).numpy()
            want = want.reshape(len(idx), *want.shape[-2:])
        else:
            want = model.forward(t.tensor(idx), ds.translations[idx]).numpy()
    got = patterns(kind, r, trans, idx)
    top = np.abs(want).max()
    ok = want.shape == got.shape and np.all(np.abs(want - got) <= 2e-3 * top)
    run.check(ok, 'saved results give other patterns', lambda: '%s / %s, '
              'difference %g of %g; %s' % (
                  want.shape, got.shape, np.abs(want - got).max()
                  if want.shape == got.shape else np.nan, top, where))
    run.probe('saved results compared')


def another(ds, seed):
    """The same experiment at slightly different positions"""
    r = np.random.RandomState(seed)
    trans = ds.translations.numpy().copy()
    c = trans.mean(axis=0)
    trans = c + (trans - c) * r.uniform(.6, .95)
    return Ptycho2DDataset(t.as_tensor(trans, dtype=ds.translations.dtype),
                           ds.patterns, mask=ds.mask,
                           detector_geometry=ds.detector_geometry,
                           wavelength=ds.wavelength)


def arguments(sc, kind, ds, op):
    """Arguments for save_results, and the dataset which is meant"""
    if op['args'] == 'same':
        return [ds], ds
    if op['args'] == 'other' and kind not in ('simple', 'rpi'):
        ds = another(ds, sc['seed'])
        return [ds], ds
    return [], ds


def save(sc, run, kind, model, ds, op, where):
    args, used = arguments(sc, kind, ds, op)
    before = S.snapshot(model)
    rng = t.get_rng_state()
    if op['how'] == 'memory':
        r = model.save_results(*args)
    else:
        path = os.path.join(run.scratch(), 'results.h5')
        with vfs.disk() as disk:
            disk.plan, disk.counts = op['fault'], {}
            try:
                model.save_to_h5(path, *args)
            except OSError:
                if not sum(disk.fired.values()):
                    raise
                disk.plan = []
                model.save_to_h5(path, *args)
            for k, v in disk.fired.items():
                run.probe('fault:' + k, v)
        r = h5_to_nested_dict(path)
    d = S.differences(before, S.snapshot(model))
    run.check(not d, 'saving changed the model', lambda: '%s; %s' % (d, where))
    run.check(t.equal(rng, t.get_rng_state()), 'random numbers were used',
              where)
    check(run, kind, model, used, r, where + ', saved %s with %s' % (
        op['how'], op['args']), sc['system']['model'])


def optimize(sc, run, kind, model, ds, op, where, plan, record):
    """Some epochs, which may fail"""
    fail = op.get('fail_at')
    real, count = model.forward_propagator, [fail]

    def forward_propagator(*args):
        count[0] -= 1
        if count[0] < 0:
            raise Trouble('injected')
        return real(*args)

    def go():
        for i, loss in enumerate(S.start(model, ds, op, op['thread'])):
            if op.get('save_after') == i and record is None:
                was, count[0] = count[0], 10**9
                save(sc, run, kind, model, ds, op['save'], where)
                count[0] = was
    path = os.path.join(run.scratch(), 'context.h5')
    args, used = arguments(sc, kind, ds, op['save'])
    failed = False
    if fail is not None:
        model.forward_propagator = forward_propagator
    else:
        count[0] = 10**9
    try:
        with run.sim(plan, trace=op['thread'], record=record), S.quiet():
            if op.get('context') == 'exit':
                with model.save_on_exit(path, *args):
                    go()
            elif op.get('context') == 'exception':
                with model.save_on_exception(path, *args):
                    go()
            else:
                go()
    except Trouble:
        failed = True
        run.probe('fault:exception_in_model')
    finally:
        if fail is not None:
            del model.forward_propagator
    if record is not None or run.violations:
        return
    saved = op.get('context') == 'exit' or \
        op.get('context') == 'exception' and failed
    run.check(os.path.exists(path) == saved, 'saved although it should not, '
              'or not saved', where)
    if saved and os.path.exists(path):
        run.probe('saved at the end' + (' of a failure' if failed else ''))
        check(run, kind, model, used, h5_to_nested_dict(path),
              where + ', in a context with %s' % op['save']['args'], sc['system']['model'])


def scenario(sc, run, plan, record=None):
    sys = sc['system']
    kind = S.kind_of(sys)
    model, ds = S.make_system(sys)
    t.manual_seed(sc['seed'])
    for oi, op in enumerate(sc['ops']):
        where = 'operation %d (%s) of %s' % (oi, op['op'], kind)
        if op['op'] == 'optimize':
            optimize(sc, run, kind, model, ds, op, where, plan, record)
        elif op['op'] == 'tidy':
            if hasattr(model, 'tidy_probes') and \
                    'n_obj_modes' not in sys['model']['kw']:
                model.tidy_probes()
        elif op['op'] == 'assign':
            W.assign(model, op['seed'])
        elif op['op'] == 'center':
            if hasattr(model, 'center_probes'):
                model.center_probes()
        elif op['op'] == 'reload':
            if op['h5']:
                path = os.path.join(run.scratch(), 'model.h5')
                model.save_to_h5(path)
                model = type(model).from_results_h5(path)
            else:
                model = type(model).from_results_dict(model.save_results())
        elif record is None:
            save(sc, run, kind, model, ds, op, where)
        if run.violations:
            return
    return model


def run(sc, run):
    run.tags.append('model:' + S.kind_of(sc['system']))
    run.nontrivial = True
    model = scenario(sc, run, sc['plan'])
    if model is not None:
        run.note_state(W.state(model))
