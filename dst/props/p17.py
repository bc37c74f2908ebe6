"""Simulated experiments: what a model predicts, as a dataset, through a file,
and back into a reconstruction"""
import os
import random
import numpy as np
import torch as t
from cdtools.datasets import Ptycho2DDataset
from cdtools.tools import interactions
from .. import session as S, vfs, world as W
from ..common import Run, random_plan
from .p16 import settings


class Trouble(Exception):
    pass


def generate(rnd):
    kind = rnd.choice(['fancy', 'fancy', 'near', 'multislice', 'bragg'])
    sys = W.gen_world(rnd, kind, n=rnd.randint(3, 7))
    n = sys['data']['n']
    ops = []
    for i in range(rnd.randint(2, 6)):
        if rnd.random() < (.1 if i else .5):
            ops.append({'op': 'assign', 'seed': rnd.randrange(10**6)})
        u = rnd.random()
        if u < .35:
            call = S.gen_call(rnd, sys, rnd.choice(['adam', 'adam', 'sgd']),
                              max_iter=2)
            call['op'] = 'optimize'
            call['thread'] = rnd.random() < .5
            call['simulate_in'] = rnd.random() < .4
            call['sim'] = gen_sim(rnd, n)
            ops.append(call)
        elif u < .85:
            ops.append(dict(gen_sim(rnd, n), op='simulate'))
        elif u < .9:
            ops.append({'op': 'tidy'})
        elif u < .95:
            ops.append({'op': 'center'})
        else:
            ops.append({'op': 'reload', 'h5': rnd.random() < .5})
    if not any(op['op'] == 'simulate' for op in ops):
        ops.append(dict(gen_sim(rnd, n), op='simulate'))
    return {'system': sys, 'ops': ops, 'seed': rnd.randrange(10**6),
            'plan_seed': rnd.randrange(10**6), 'plan': {}}


def gen_sim(rnd, n):
    style = rnd.choice(['all', 'all', 'order', 'some', 'repeated', 'one'])
    idx = list(range(n))
    if style == 'order':
        rnd.shuffle(idx)
    elif style == 'some':
        idx = rnd.sample(idx, rnd.randint(1, n))
    elif style == 'repeated':
        idx = [rnd.randrange(n) for _ in range(rnd.randint(1, 2 * n))]
    elif style == 'one':
        idx = [rnd.randrange(n)]
    return {'idx': idx, 'width': rnd.choice([None, None, 1, 2, 3, 50]),
            'grad': rnd.random() < .5, 'moved': rnd.random() < .3,
            'list': rnd.random() < .3, 'seed': rnd.randrange(10**6),
            'fail_at': rnd.choice([None] * 4 + [0, 1, 2]),
            'outside': rnd.random() < .2,
            'save': rnd.choice([None, 'str', 'h5']),
            'fault': rnd.choice([[]] * 4 + [[['open', 0, 'EIO', 1]],
                                            [['read', 2, 'EIO', 1]]]),
            'fit': rnd.choice([None, 'sgd', 'lbfgs', 'adam']),
            'thread': rnd.random() < .4,
            'bs': rnd.choice([1, 2, 3, 20])}


def materialise(sc):
    rnd = random.Random('plan/%d' % sc['plan_seed'])
    record = []
    scenario(sc, Run(), {}, record)
    sc['plan'] = random_plan(rnd, record)
    return sc


def one_by_one(model, idx, trans):
    """What the model predicts for each of the positions, alone"""
    with t.no_grad():
        return t.stack([model.forward(t.tensor([i]), x[None])[0]
                        for i, x in zip(idx, trans)])


def near(a, b, tol=2e-4):
    a, b = t.as_tensor(a), t.as_tensor(b)
    if a.shape != b.shape:
        return False
    a, b = a.to(t.float64), b.to(t.float64)
    return bool(((a - b).abs() <= tol * b.abs().max()).all())


def plain(x):
    return np.asarray(x.detach() if isinstance(x, t.Tensor) else x)


def simulate(sc, run, kind, model, ds, sim, where, closed=False):
    idx = list(sim['idx'])
    trans = ds.translations[idx].clone()
    if sim['moved']:
        # within the field of view
        r = t.Generator().manual_seed(sim['seed'])
        c = trans.mean(dim=0)
        trans = c + (trans - c) * (.5 + .5 * t.rand((1,), generator=r))
        trans[:, 2] = ds.translations[idx][:, 2]
    index = idx if sim['list'] else t.tensor(idx)
    kw = {}
    if sim['width'] is not None and kind != 'bragg':
        kw['calculation_width'] = sim['width']
    before = S.snapshot(model)
    rng = t.get_rng_state()
    given = trans.clone()
    initially = settings()

    def go():
        if sim['grad']:
            return model.sim_to_dataset((index, trans), **kw)
        with t.no_grad():
            return model.sim_to_dataset((index, trans), **kw)
    if sim['fail_at'] is not None:
        # The memory may not be sufficient
        real, count = model.forward_propagator, [sim['fail_at']]

        def forward_propagator(*args):
            count[0] -= 1
            if count[0] < 0:
                raise Trouble('injected')
            return real(*args)
        model.forward_propagator = forward_propagator
        try:
            go()
            run.check(count[0] >= 0, 'error swallowed', where)
        except Trouble:
            run.probe('fault:exception_in_model')
        finally:
            del model.forward_propagator
        d = S.differences(before, S.snapshot(model))
        run.check(not d, 'failed simulation changed model', lambda: '%s; %s'
                  % (d, where))
    if sim['outside']:
        # There may be no such position
        bad = [*idx[:-1], len(ds) + 3]
        try:
            model.sim_to_dataset((bad if sim['list'] else t.tensor(bad),
                                  trans), **kw)
        except (IndexError, RuntimeError):
            run.probe('fault:no_such_position')
        run.check(t.equal(rng, t.get_rng_state()), 'random numbers were used',
                  'by a simulation which fails; ' + where)
    run.check(settings() == initially, 'settings', lambda: '%s; %s' % (
        [k for k, v in settings().items() if v != initially[k]], where))
    got = go()
    run.check(settings() == initially, 'settings', lambda: '%s; %s' % (
        [k for k, v in settings().items() if v != initially[k]], where))
    run.probe('simulations')
    d = S.differences(before, S.snapshot(model))
    run.check(not d, 'model changed', lambda: '%s; %s' % (d, where))
    run.check(t.equal(rng, t.get_rng_state()), 'random numbers were used',
              where)
    run.check(t.equal(given, trans) and index is not None and
              (list(index) == idx if sim['list'] else index.tolist() == idx),
              'arguments changed', where)
    check(run, model, ds, got, idx, trans, where)
    positions(run, model, ds, where)
    if run.violations:
        return
    path = os.path.join(run.scratch(), 'sim.cxi')
    if sim['save']:
        with vfs.disk() as disk:
            disk.plan, disk.counts = sim['fault'], {}
            try:
                got.to_cxi(path)
                loaded = Ptycho2DDataset.from_cxi(path)
            except OSError:
                if not sum(disk.fired.values()):
                    raise
                disk.plan = []
                got.to_cxi(path)
                loaded = Ptycho2DDataset.from_cxi(path)
            for k, v in disk.fired.items():
                run.probe('fault:' + k, v)
        check(run, model, ds, loaded, idx, trans, where + ', loaded')
        run.check(t.equal(loaded.patterns, got.patterns) and t.equal(
            loaded.translations, got.translations), 'file', where)
        run.check(loaded.entry_info.get('program_name') == 'cdtools' and
                  bool(loaded.sample_info.get('description')), 'description',
                  '%s %s; %s' % (loaded.entry_info, loaded.sample_info,
                                 where))
        run.probe('simulations saved and loaded')
        got = loaded
    if run.violations:
        return
    again(sc, run, kind, model, ds, got, where)
    # Other subsets have other indices
    if idx == list(range(len(ds))) and sim['fit']:
        fit(sc, run, kind, model, ds, got, sim, where)


def check(run, model, ds, got, idx, trans, where):
    """A simulated dataset contains the predictions and the geometry"""
    run.check(type(got) is Ptycho2DDataset and len(got) == len(idx), 'length',
              '%s patterns instead of %d; %s' % (len(got), len(idx), where))
    want = one_by_one(model, idx, trans)
    run.check(near(got.patterns, want), 'patterns', lambda: (
        'of shape %s, largest error %g of %g; %s' % (
            tuple(got.patterns.shape), float((got.patterns - want).abs().max())
            if got.patterns.shape == want.shape else np.nan,
            float(want.max()), where)))
    run.check(got.patterns.dtype == t.float32 and not
              got.patterns.requires_grad and not
              got.translations.requires_grad, 'type of the patterns', lambda:
              '%s %s; %s' % (got.patterns.dtype, got.patterns.requires_grad,
                             where))
    run.check(t.equal(got.translations, trans), 'translations', where)
    run.check(np.array_equal(plain(got.wavelength).ravel(),
                             plain(model.wavelength).ravel()), 'wavelength',
              where)
    g, h = got.detector_geometry, ds.detector_geometry
    run.check(near(g['basis'], h['basis'], 1e-6) and abs(
        float(g['distance']) - float(h['distance']))
        <= 1e-6 * float(h['distance']), 'geometry', lambda: '%s; %s' % (
            g, where))
    if h.get('corner') is not None:
        run.check(g.get('corner') is not None and near(
            np.ravel(plain(g['corner'])), np.ravel(plain(h['corner'])), 1e-6),
            'geometry', lambda: 'corner: %s; %s' % (g, where))
    # The axes of the sample: x, y and its normal, right-handed
    axes = (got.sample_info or {}).get('orientation')
    if axes is not None:
        axes = np.asarray(plain(axes), dtype=np.float64)
        run.check(axes.shape == (3, 3)
                  and np.allclose(axes @ axes.T, np.eye(3), atol=1e-5)
                  and np.linalg.det(axes) > 0
                  and np.allclose(axes[2], plain(model.surface_normal).ravel(),
                                  atol=1e-5), 'orientation of the sample',
                  lambda: '%s, where the surface normal of the model is %s; %s'
                  % (axes.tolist(), plain(model.surface_normal), where))
        run.probe('orientations')
    run.check(got.mask is not None and got.mask.dtype == t.bool and t.equal(
        got.mask, model.mask.to(t.bool)), 'mask', where)


def positions(run, model, ds, where):
    """The corrected positions are those at which the model simulates"""
    offsets = getattr(model, 'translation_offsets', None)
    if offsets is None or not hasattr(model, 'corrected_translations'):
        return
    if getattr(model, 'simulate_probe_translation', False):
        # It moves the pattern by the measured position, not the corrected one
        return
    idx = list(range(len(ds)))
    before = S.snapshot(model)
    with t.no_grad():
        corrected = model.corrected_translations(ds)
        d = S.differences(before, S.snapshot(model))
        run.check(not d, 'model changed', lambda: '%s; %s' % (d, where))
        if not bool(t.isfinite(corrected).all()):
            return
        # Just below a full pixel, another part of the object is illuminated by
        # a shifted probe, than just above
        pix = interactions.translations_to_pixel(
            model.obj_basis, corrected, surface_normal=model.surface_normal)
        part = (pix - model.min_translation).frac().abs()
        idx = [i for i in idx if bool(((part[i] > .01) & (part[i] < .99))
                                      .all())]
        if not idx:
            return
        corrected = corrected[idx]
        want = one_by_one(model, idx, ds.translations[idx])
        real = offsets.detach().clone()
        offsets.data.zero_()
        try:
            got = one_by_one(model, idx, corrected)
        finally:
            offsets.data.copy_(real)
    if bool(t.isfinite(want).all()):
        run.check(near(got, want, 2e-3), 'corrected positions', lambda:
                  'patterns for these differ from those the model predicts by '
                  '%g of %g; offsets up to %g pixels; %s' % (
                      float((got - want).abs().max()), float(want.max()),
                      float(real.abs().max()), where))
        run.probe('corrected positions')
        if float(real.abs().max()) > 0:
            run.probe('positions which were corrected')


def again(sc, run, kind, model, ds, got, where):
    """A model for the simulated data has the same geometry"""
    spec = sc['system']['model']
    state = t.get_rng_state()
    kw = {k: v for k, v in spec['kw'].items() if k != 'use_qe_mask'}
    try:
        new = W.make_model(dict(spec, kw=kw), got)
    except Exception as e:
        # A single position has no extent, say
        run.probe('new models which were refused')
        if len(got) > 2:
            raise
        return
    finally:
        t.set_rng_state(state)
    for k in ('obj_basis', 'probe_basis', 'wavelength', 'det_basis'):
        if hasattr(model, k):
            run.check(near(getattr(new, k), getattr(model, k), 1e-5),
                      'geometry of new models', lambda: '%s: %s instead of %s;'
                      ' %s' % (k, getattr(new, k), getattr(model, k), where))
    run.check(new.probe.shape == model.probe.shape, 'geometry of new models',
              lambda: 'probe: %s instead of %s; %s' % (
                  new.probe.shape, model.probe.shape, where))
    run.check(len(new.weights) == len(got), 'positions of new models', where)
    if t.equal(got.translations, ds.translations):
        run.check(new.obj.shape == model.obj.shape,
                  'geometry of new models', lambda: 'obj: %s instead of %s; %s'
                  % (new.obj.shape, model.obj.shape, where))
        run.check(near(new.min_translation, model.min_translation, 1e-5),
                  'geometry of new models', where)
    run.probe('new models')


def fit(sc, run, kind, model, ds, got, sim, where):
    """The model fits its own predictions"""
    if sc['system']['model']['kw'].get('loss', 'amplitude mse') \
            == 'poisson nll':
        return
    scale = float(got.patterns.max())
    results = model.save_results()
    copy = type(model).from_results_dict(results)
    kw = {'batch_size': sim['bs']} if sim['fit'] != 'lbfgs' else {}
    call = {'opt': sim['fit'], 'iterations': 2, 'calculation_width': 2,
            'kw': dict(kw, lr=1e-12), 'subset': None}
    with run.sim(sc['plan'], trace=sim['thread']):
        losses = [float(x) for x in S.start(copy, got, call, sim['thread'])]
    # They are normalized to the measured intensities
    run.check(len(losses) == 2 and all(0 <= x <= 1e-6 for x in losses), 'loss of the true model',
              '%s with a largest count of %g; %s' % (losses, scale, where))
    run.probe('true models fitted')


def scenario(sc, run, plan, record=None):
    sys = sc['system']
    kind = S.kind_of(sys)
    model, ds = S.make_system(sys)
    t.manual_seed(sc['seed'])
    done = 0
    for oi, op in enumerate(sc['ops']):
        where = 'operation %d (%s)' % (oi, op['op'])
        if op['op'] == 'optimize':
            with run.sim(plan, trace=op['thread'], record=record), S.quiet():
                for i, loss in enumerate(S.start(model, ds, op,
                                                 op['thread'])):
                    if op['simulate_in'] and i == 0 and record is None:
                        # between two epochs
                        simulate(sc, run, kind, model, ds, dict(
                            op['sim'], fit=None), where)
        elif record is not None:
            continue
        elif op['op'] == 'tidy':
            if hasattr(model, 'tidy_probes') and \
                    'n_obj_modes' not in sys['model']['kw']:
                model.tidy_probes()
        elif op['op'] == 'assign':
            W.assign(model, op['seed'])
        elif op['op'] == 'center':
            if hasattr(model, 'center_probes'):
                model.center_probes()
        elif op['op'] == 'reload':
            if op['h5']:
                path = os.path.join(run.scratch(), 'model.h5')
                model.save_to_h5(path)
                model = type(model).from_results_h5(path)
            else:
                model = type(model).from_results_dict(model.save_results())
        else:
            with S.quiet():
                simulate(sc, run, kind, model, ds, op, where)
            done += 1
        if run.violations:
            return
    return model


def run(sc, run):
    run.tags.append('model:' + S.kind_of(sc['system']))
    run.nontrivial = True
    model = scenario(sc, run, sc['plan'])
    if model is not None:
        run.note_state(W.state(model))
