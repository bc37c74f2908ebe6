"""Everything the user holds - datasets, models, saved results, loaded models,
simulated data - is independent of everything else, whatever is done to it"""
import copy
import os
import random
import numpy as np
import torch as t
from cdtools import tools as cdt
from cdtools.models import RPI
from cdtools.tools import analysis, image_processing
from .. import session as S, vfs, world as W
from ..faults import Faults, FaultyDataset


def generate(rnd):
    sys = S.gen_system(rnd, .15, n=rnd.randint(4, 6))
    first = S.gen_call(rnd, sys)
    ops = []
    for i in range(rnd.randint(3, 9)):
        op = rnd.choice(['optimize'] * 5 + ['save'] * 4 + ['load'] * 3 + [
            'scribble_results', 'scribble_model', 'model', 'split',
            'dataset_op', 'simulate', 'inspect', 'tidy', 'compare',
            'to_cxi', 'failing', 'load_h5', 'inspect_data', 'new_dataset',
            'edit_info', 'report', 'analyse', 'analyse', 'tools', 'center',
            'calibrate', 'dataset_op', 'edit_info', 'new_dataset',
            'scribble_dataset', 'scribble_arguments'])
        entry = {'op': op, 'pick': rnd.randrange(1000),
                 'arg': rnd.randrange(1000)}
        if op in ('optimize', 'failing'):
            opt = rnd.choice(['adam', 'adam', 'sgd'])
            call = S.gen_call(rnd, sys, opt, 2)
            call['thread'] = rnd.random() < .3
            call.pop('subset', None)
            if first.get('subset') is not None and S.kind_of(sys) == 'rpi':
                call['subset'] = [0]
            entry['call'] = call
        ops.append(entry)
    return {'system': sys, 'ops': ops, 'seed': rnd.randrange(10**6),
            'plan': {}}


# What an object is, as far as anyone can tell
def flat(x, name='', out=None):
    if out is None:
        out = {}
    if isinstance(x, dict):
        out[name] = sorted(map(str, x))
        for k in sorted(x, key=str):
            flat(x[k], '%s/%s' % (name, k), out)
    elif isinstance(x, (list, tuple)):
        out[name] = len(x)
        for i, y in enumerate(x):
            flat(y, '%s/%d' % (name, i), out)
    elif isinstance(x, t.Tensor):
        y = x.detach().resolve_conj().contiguous()
        out[name] = (str(y.dtype), tuple(y.shape), y.numpy().tobytes())
    elif isinstance(x, np.ndarray):
        out[name] = (str(x.dtype), x.shape, np.ascontiguousarray(x).tobytes())
    elif x is None or isinstance(x, (int, float, str, bool, np.generic)):
        out[name] = repr(x)
    return out


def look(kind, x):
    if kind == 'dataset':
        return flat({k: v for k, v in vars(x).items() if k != 'faults'})
    if kind in ('model', 'calibrated model'):
        d = {'state': dict(x.state_dict()), 'losses': x.loss_history,
             'epoch': x.epoch, 'history': x.training_history,
             'free': {k: p.requires_grad for k, p in x.named_parameters()}}
        return flat(d)
    return flat(x)


class Shelf:
    """All objects of the user"""

    def __init__(self):
        self.things = []     # [kind, object, what it looked like, name]

    def add(self, kind, x, name, source=None):
        # models may use constants, like the mask, of the data they are made
        # from
        self.things.append([kind, x, look(kind, x),
                            '%s%d' % (name, len(self.things)), source])
        return self.things[-1]

    def drop(self, entry, made_from=False):
        self.things = [e for e in self.things if e is not entry and not (
            made_from and e[4] is entry)]

    def pick(self, kind, n):
        fits = [e for e in self.things if e[0] == kind]
        return fits[n % len(fits)] if fits else None

    def check(self, run, allowed, where):
        """Nothing but the given entries may have changed"""
        for e in self.things:
            now = look(e[0], e[1])
            if e not in allowed and now != e[2]:
                changed = [k for k in sorted(set(now) | set(e[2]))
                           if now.get(k) != e[2].get(k)]
                run.bad('%s changed' % e[0], '%s (%s) changed in %s; %s' % (
                    e[3], e[0], changed[:6], where))
            e[2] = now


def scribble(x):
    """Overwrites every array, in place"""
    if isinstance(x, dict):
        for k in x:
            scribble(x[k])
    elif isinstance(x, (list, tuple)):
        for y in x:
            scribble(y)
    elif isinstance(x, np.ndarray) and x.dtype.kind in 'fc' and x.size:
        x += 1
    elif isinstance(x, t.Tensor) and x.numel() and (
            x.is_floating_point() or x.is_complex()):
        with t.no_grad():
            if x.is_conj():
                x.resolve_conj()
            x.add_(1)


def compatible(model, ds, n):
    return len(ds) == n and ds.patterns.shape[-2:] == model_shape(model, ds)


def model_shape(model, ds):
    m = getattr(model, 'mask', None)
    return m.shape if m is not None else ds.patterns.shape[-2:]


def run(sc, run):
    sys = sc['system']
    kind = S.kind_of(sys)
    shelf = Shelf()
    ds = W.make_dataset(sys['data'], FaultyDataset)
    # Not the default, to see that it stays as it is
    ds.get_as('cpu', copy=True)
    data0 = shelf.add('dataset', ds, 'original dataset ')
    shape = tuple(ds.patterns.shape)

    def make(data):
        return W.make_tiny(sys['tiny'], data) if kind == 'tiny' \
            else W.make_model(sys['model'], data)

    shelf.add('model', make(ds), 'model ')
    shelf.check(run, [], 'creating a model')
    run.tags.append('model:' + kind)
    run.nontrivial = True
    for oi, op in enumerate(sc['ops']):
        where = 'operation %d (%s)' % (oi, op['op'])
        model = shelf.pick('model', op['pick'])
        results = shelf.pick('results', op['pick'])
        # The data the model belongs to
        data = [e for e in shelf.things if e[0] == 'dataset'
                and tuple(e[1].patterns.shape) == shape]
        data = data[op['arg'] % len(data)] if data else None
        allowed = []
        with run.sim({}, trace=False), S.quiet(), vfs.disk():
            name = op['op']
            if name in ('optimize', 'failing') and data:
                faults = Faults([['dataset', 1 + op['arg'] % 7, 'OSError']]
                                if name == 'failing' else [])
                faults.armed = True
                data[1].faults = faults
                t.manual_seed(sc['seed'] + oi)
                allowed = [model]
                try:
                    list(S.start(model[1], data[1], op['call'],
                                 op['call']['thread']))
                except OSError:
                    if not faults.raised:
                        raise
                    run.probe('fault:read_error')
                faults.armed = False
            elif name == 'save':
                args = [data[1]] if data and op['arg'] % 2 \
                    and kind != 'tiny' else []
                shelf.add('results', model[1].save_results(*args),
                          'results ')
            elif name == 'load' and results and kind != 'tiny':
                shelf.add('model', W.CLASSES[kind].from_results_dict(
                    results[1]), 'loaded model ')
            elif name == 'load_h5' and kind != 'tiny':
                path = os.path.join(run.scratch(), 'r.h5')
                model[1].save_to_h5(path)
                shelf.add('model', W.CLASSES[kind].from_results_h5(path),
                          'loaded model ')
            elif name == 'scribble_results' and results:
                scribble(results[1])
                # these can no longer be used
                shelf.drop(results)
                shelf.things = [e for e in shelf.things if not (
                    e[0] == 'calibrated model' and e[4] is results)]
            elif name == 'scribble_model' and len(
                    [e for e in shelf.things if e[0] == 'model']) > 1:
                # Constants, like the mask, are shared
                for x in model[1].parameters():
                    scribble(x.data)
                shelf.drop(model)
            elif name == 'model' and data:
                shelf.add('model', make(data[1]), 'model ', data)
            elif name == 'split' and data:
                for part in data[1].split():
                    shelf.add('dataset', part, 'part ')
            elif name == 'dataset_op':
                d = shelf.pick('dataset', op['arg'])
                if d is not data0:
                    allowed = [d]
                    change(d[1], op['pick'])
            elif name == 'new_dataset' and data:
                args = shelf.pick('arguments', 0)
                if args is None:
                    args = shelf.add('arguments', arguments(data[1]),
                                     'arguments ')
                # The patterns may be used as they are
                kw = dict(args[1])
                if len(kw['translations']) != len(data[1]):
                    kw['translations'] = data[1].translations.clone()
                shelf.add('dataset', FaultyDataset(
                    patterns=data[1].patterns.clone(), **kw), 'new dataset ')
            elif name == 'scribble_dataset':
                d = shelf.pick('dataset', op['arg'])
                if d is data0:
                    continue
                allowed = [d]
                for x in vars(d[1]).values():
                    if isinstance(x, t.Tensor) and x.dtype == t.bool:
                        x.logical_not_()
                # The geometry's arrays may be used as they are, too
                scribble({k: x for k, x in vars(d[1]).items() if k not in
                          ('faults', 'patterns', 'detector_geometry',
                           'wavelength')})
                # these can no longer be used
                shelf.drop(d, True)
            elif name == 'scribble_arguments':
                args = shelf.pick('arguments', 0)
                if args is None:
                    continue
                np.logical_not(args[1]['mask'], out=args[1]['mask'])
                scribble([args[1]['background'], args[1]['translations']])
                shelf.drop(args)
            elif name == 'edit_info':
                d = shelf.pick('dataset', op['arg'])
                if d is data0:
                    continue
                allowed = [d]
                edit(d[1], op['pick'])
            elif name == 'report':
                model[1].report()
                model[1].plot_loss_history()
            elif name == 'simulate' and data and kind not in (
                    'tiny', 'rpi', 'simple'):
                simulate(model[1], data[1], shelf, kind)
            elif name == 'inspect' and data:
                model[1].inspect(data[1], replot_all=True)
            elif name == 'inspect_data' and data and op['arg'] % 3 == 0:
                data[1].inspect()
            elif name == 'tidy' and hasattr(model[1], 'tidy_probes'):
                allowed = [model]
                model[1].tidy_probes()
            elif name == 'center' and hasattr(model[1], 'center_probes'):
                allowed = [model]
                model[1].center_probes(1 + op['arg'] % 2)
            elif name == 'calibrate' and results and kind == 'fancy':
                with Catch(run):
                    shelf.add('calibrated model', RPI.from_calibration(
                        results[1], initialization=['random', 'uniform'][
                            op['arg'] % 2]), 'calibrated model ', results)
            elif name == 'analyse':
                if op['arg'] % 3:
                    shelf.add('results', model[1].save_results(), 'results ')
                all_results = [e[1] for e in shelf.things
                               if e[0] == 'results']
                analyse(random.Random('%d/%d' % (sc['seed'], oi)), run,
                        all_results, data and data[1])
            elif name == 'tools' and data:
                tools(random.Random('%d/%d' % (sc['seed'], oi)), run,
                      model[1], data[1])
            elif name == 'compare' and data and op['arg'] % 2:
                model[1].compare(data[1])
            elif name == 'to_cxi' and data:
                data[1].to_cxi(os.path.join(run.scratch(), 'd.cxi'))
            else:
                continue
        run.tags.append(op['op'])
        shelf.check(run, allowed, where)
        if run.violations:
            return
    run.note([sorted(map(str, e[2].values()))[:50] for e in shelf.things])


def arguments(ds):
    """What a user creates several datasets from"""
    g = ds.detector_geometry
    return {'wavelength': W.LAM, 'entry_info': {'title': 'a', 'name': 'b'},
            'sample_info': {'name': 'c', 'mass': 3.},
            'detector_geometry': {k: copy.deepcopy(v) for k, v in g.items()},
            'mask': ds.mask.numpy().copy(),
            'background': np.full(ds.mask.shape, .5, dtype=np.float32),
            'translations': ds.translations.numpy().copy()}


def edit(ds, how):
    how = how % 5
    if how == 0 and ds.entry_info:
        ds.entry_info['title'] = 'edited'
    elif how == 1 and ds.sample_info:
        ds.sample_info['mass'] = 5.
    elif how == 2:
        ds.detector_geometry['distance'] = .25
    elif how == 3:
        # not in place, models may use it
        ds.mask = ds.mask.clone()
        ds.mask[0, 0] = not ds.mask[0, 0]
    elif ds.background is not None:
        ds.background += 1


class Catch:
    """Some of these functions aren't made for some kinds of models; whatever
    they do, they change nothing"""

    def __init__(self, run):
        self.run, self.failed = run, False

    def __enter__(self):
        return self

    def __exit__(self, kind, e, tb):
        if kind is not None and issubclass(kind, Exception):
            self.run.probe('analyses which failed')
            self.failed = True
            return True


def enlarged(results):
    """The same with more pixels, which some of these functions need"""
    results = copy.deepcopy(results)
    for k in ('obj', 'probe'):
        x = results[k]
        f = -(-40 // min(x.shape[-2:]))
        results[k] = np.kron(x, np.ones((f, f), dtype=x.dtype))
    return results


def analyse(rnd, run, results, ds):
    """What users do with results"""
    results = [r for r in results if 'obj' in r and 'probe' in r]
    if not results:
        return
    results = [rnd.choice(results) for _ in range(3)]
    if rnd.random() < .8:
        results = [enlarged(r) for r in results]
    a, b, c = results
    conv = rnd.choice([np.asarray, t.as_tensor])
    probes = [conv(r['probe']) for r in results]
    objs = [conv(r['obj']) for r in results]
    if rnd.random() < .5:
        # the models of any kind, with two dimensional objects
        objs = [o.reshape((-1,) + tuple(o.shape[-2:]))[0] for o in objs]
    t_probe, t_obj, t_obj2 = [t.as_tensor(x) for x in (
        probes[0], objs[0], objs[1])]
    n_probe, n_obj = np.asarray(probes[0]), np.asarray(objs[0])
    basis = conv(a.get('obj_basis', np.eye(3)[:, :2]))
    window = rnd.choice([np.s_[:, :], np.s_[2:-2, 2:-2]])
    kw = {'correct_phase_offset': rnd.random() < .6,
          'correct_phase_ramp': rnd.random() < .5,
          'correct_amplitude_exponent': rnd.random() < .3,
          'window': window, 'nbins': 5}
    yes = rnd.random() < .5
    options = {
        'pair': lambda: analysis.standardize_reconstruction_pair(
            a, b, probe_nbins=4, **kw),
        'set': lambda: analysis.standardize_reconstruction_set(
            a, b, c, **kw),
        'standardize': lambda: analysis.standardize(
            probes[0], objs[0], correct_ramp=yes),
        'standardize one': lambda: analysis.standardize(
            probes[0][0], objs[0], correct_ramp=yes),
        'synthesize': lambda: analysis.synthesize_reconstructions(
            probes, objs, use_probe=yes),
        'frc': lambda: analysis.calc_frc(objs[0], objs[1], basis, nbins=5),
        'prtf': lambda: analysis.calc_consistency_prtf(
            objs[0], objs, basis, nbins=5),
        'ramp': lambda: analysis.remove_phase_ramp(
            n_obj, window, probe=n_probe),
        'exponent': lambda: analysis.remove_amplitude_exponent(
            n_obj, window, probe=n_probe, weights=a.get('weights'),
            basis=basis, translations=a.get('translations')),
        'fidelity': lambda: analysis.calc_fidelity(probes[0], probes[1]),
        'rms': lambda: analysis.calc_rms_error(
            objs[0], objs[1], normalize=yes),
        'generalized rms': lambda: analysis.calc_generalized_rms_error(
            probes[0], probes[1], normalize=yes),
        'orthogonalize': lambda: analysis.orthogonalize_probes(probes[0]),
        'spectral': lambda: analysis.calc_spectral_info(ds, nbins=5),
        'center': lambda: image_processing.center(t_probe, use_power=yes),
        'shift': lambda: image_processing.sinc_subpixel_shift(
            t_obj, image_processing.find_shift(t_obj, t_obj2)),
        'hann': lambda: image_processing.hann_window(objs[0]),
        'centroid': lambda: image_processing.centroid(abs(t_probe)),
        'upsample': lambda: image_processing.fourier_upsample(
            t_probe, preserve_mean=yes),
    }
    given = {'results': results, 'objects': objs, 'basis': basis}
    unchanged(rnd, run, options, given)


def unchanged(rnd, run, options, given):
    for name in rnd.sample(sorted(options), rnd.randint(1, 4)):
        before = flat(given)
        with Catch(run) as catch:
            options[name]()
        if not catch.failed:
            run.probe('analysis ' + name)
        now = flat(given)
        run.check(before == now, 'analysis changed data', lambda:
                  '%s changed the %s it was given' % (name, [
                      k for k in now if now[k] != before.get(k)]))


def tools(rnd, run, model, ds):
    """The building blocks of models"""
    yes, over = rnd.random() < .5, rnd.choice([1, 2])
    n = len(ds)
    p = {'trans': ds.translations.clone(), 'patterns': ds.patterns.clone(),
         'mask': ds.mask.clone(), 'basis': t.as_tensor(
             ds.detector_geometry['basis'], dtype=t.float32).clone(),
         'background': t.rand(ds.patterns.shape[-2:])}
    if yes and hasattr(model, 'probe'):
        p['probe'] = model.probe.detach().clone()
    else:
        h, w = ds.patterns.shape[-2:]
        p['probe'] = t.rand((2, h, w), dtype=t.complex64)
    h, w = p['probe'].shape[-2:]
    p['obj'] = t.rand((h + 14, w + 12), dtype=t.complex64)
    p['pix'] = t.rand((n, 2)) * 6 + 2
    p['field'] = t.rand((n, 2, h, w), dtype=t.complex64)
    p['sim'] = ds.patterns + t.rand(ds.patterns.shape)
    p['offset'] = t.tensor([0, 0, 1e-3])
    p['surface'] = t.tensor([0., .1, 1.])
    p['wavelength'] = t.as_tensor(ds.wavelength, dtype=t.float32).clone()
    qe = t.rand((h, w))
    p['qe'] = qe
    lens = cdt.initializers.exit_wave_geometry
    I, P, M = cdt.interactions, cdt.propagators, cdt.measurements
    kw = {'epsilon': 1e-7, 'oversampling': over,
          'saturation': rnd.choice([None, .5])}
    options = {
        'to pixel': lambda: I.translations_to_pixel(
            p['basis'], p['trans'], surface_normal=p['surface']),
        'from pixel': lambda: I.pixel_to_translations(
            p['basis'], p['pix'], surface_normal=p['surface']),
        'project': lambda: I.project_translations_to_sample(
            p['basis'], p['trans']),
        'round': lambda: I.ptycho_2D_round(
            p['probe'], p['obj'], p['pix'], multiple_modes=True),
        'linear': lambda: I.ptycho_2D_linear(
            p['probe'], p['obj'], p['pix'], shift_probe=yes),
        'sinc': lambda: I.ptycho_2D_sinc(
            p['probe'], p['obj'], p['pix'], shift_probe=True,
            multiple_modes=True),
        'rpi': lambda: I.RPI_interaction(p['probe'], p['obj'][None, :6, :6]),
        'far field': lambda: P.inverse_far_field(P.far_field(p['field'])),
        'near field': lambda: P.near_field(
            p['field'], P.generate_angular_spectrum_propagator(
                (h, w), (1e-7, 1e-7), 1e-9, 1e-6)),
        'generalized': lambda: P.generate_generalized_angular_spectrum_propagator(
            (h, w), p['basis'], p['wavelength'], p['offset'],
            propagate_along_offset=yes),
        'high NA': lambda: P.generate_high_NA_k_intensity_map(
            p['basis'], p['basis'], (h, w), t.tensor(.1), p['wavelength']),
        'intensity': lambda: M.intensity(p['field'], **kw),
        'sum': lambda: M.incoherent_sum(p['field'], **kw),
        'background': lambda: M.quadratic_background(
            p['field'], p['background'], measurement=M.incoherent_sum,
            qe_mask=p['qe'], **dict(kw, oversampling=1)),
        'amplitude': lambda: cdt.losses.amplitude_mse(
            p['patterns'], p['sim'], mask=p['mask'] if yes else None),
        'mse': lambda: cdt.losses.intensity_mse(
            p['patterns'], p['sim'], mask=p['mask'] if yes else None),
        'nll': lambda: cdt.losses.poisson_nll(
            p['patterns'], p['sim'], mask=p['mask'] if yes else None,
            subtract_min=rnd.random() < .5),
        'geometry': lambda: lens(p['basis'], (h, w), p['wavelength'], .1),
        'setup': lambda: cdt.initializers.calc_object_setup(
            (h, w), p['pix'], padding=2),
        'SHARP': lambda: cdt.initializers.SHARP_style_probe(
            ds, propagation_distance=rnd.choice([None, 1e-6]),
            oversampling=over),
        'modes': lambda: cdt.initializers.generate_subdominant_modes(
            p['probe'][0], 3, circular=yes),
    }
    unchanged(rnd, run, options, p)


def simulate(model, data, shelf, kind):
    n = len(data)
    args = (t.arange(n), data.translations.clone())
    got = model.sim_to_dataset(args)
    shelf.add('dataset', got, 'simulated dataset ')


def change(ds, how):
    how = how % 5
    if how == 0:
        ds.pad(2)
    elif how == 1:
        ds.downsample(2)
    elif how == 2 and len(ds) > 2:
        mask = t.zeros(len(ds), dtype=t.bool)
        mask[1] = True
        ds.remove_translations_mask(mask)
    elif how == 3:
        ds.to(dtype=t.float32)
    else:
        ds.translations = ds.translations * .9
        scribble({'p': ds.patterns, 'b': ds.background,
                  'i': ds.intensities, 'q': ds.qe_mask})
