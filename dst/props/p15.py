"""Tidying up the probes changes how a model is written down, and nothing of
what it predicts"""
import os
import random
import numpy as np
import torch as t
from matplotlib import pyplot as plt
from .. import session as S, vfs, world as W

REAL_SVD = t.linalg.svd


def generate(rnd):
    while True:
        kind = rnd.choice(['fancy', 'fancy', 'near', 'multislice'])
        sys = W.gen_world(rnd, kind, n=rnd.choice([2, 3, 4, 5, 6, 7]))
        kw = sys['model']['kw']
        # Object modes are paired with probe modes, these can't be mixed
        kw.pop('n_obj_modes', None)
        if sys['data']['n'] * kw.get('dm_rank', 9) < kw.get('n_modes', 1) \
                and kw.get('dm_rank', 9) > 0:
            # Fewer modes are enough for so few positions
            continue
        if kw.get('n_modes', 1) > 1 or rnd.random() < .2:
            break
    ops = []
    for _ in range(rnd.randint(2, 6)):
        u = rnd.random()
        if u < .35:
            call = S.gen_call(rnd, sys, rnd.choice(['adam', 'adam', 'sgd',
                                                    'lbfgs']),
                              max_iter=3, safe=False)
            if call['opt'] == 'lbfgs':
                # so that it can't diverge
                call['kw'] = {'lr': 1e-9}
            call['op'] = 'optimize'
            call['thread'] = rnd.random() < .6
            call['tidy_after'] = rnd.choice(
                [None, None, rnd.randint(0, call['iterations'])])
            ops.append(call)
        elif u < .7:
            ops.append({'op': 'tidy', 'fail_at': rnd.choice([None] * 5 + [
                0, 1, 2]), 'error': rnd.choice(['memory', 'linalg'])})
        elif u < .8:
            ops.append({'op': 'scramble', 'seed': rnd.randrange(10**6),
                        'how': rnd.choice(['mix', 'mix', 'empty', 'copy',
                                           'weak', 'phase'])})
        elif u < .9:
            ops.append({'op': 'reload', 'h5': rnd.random() < .5})
        else:
            ops.append({'op': 'inspect'})
    if not any(op['op'] == 'tidy' for op in ops):
        ops.append({'op': 'tidy', 'fail_at': None, 'error': 'memory'})
    return {'system': sys, 'ops': ops, 'seed': rnd.randrange(10**6),
            'plan_seed': rnd.randrange(10**6), 'plan': {}}


class FailingSVD:
    """Lets the k-th decomposition fail"""

    def __init__(self, at, error):
        self.at, self.error, self.n, self.fired = at, error, 0, False

    def __call__(self, *args, **kw):
        self.n += 1
        if self.at is not None and self.n == self.at + 1:
            self.fired = True
            if self.error == 'memory':
                raise MemoryError('injected')
            raise t.linalg.LinAlgError('injected')
        return REAL_SVD(*args, **kw)

    def __enter__(self):
        t.linalg.svd = self
        return self

    def __exit__(self, *args):
        t.linalg.svd = REAL_SVD


def predictions(model, ds):
    with t.no_grad():
        inputs, _ = ds[list(range(len(ds)))]
        sim = model.interaction(*inputs)
        waves = model.forward_propagator(sim)
        return model.measurement(waves).to(t.float64).clone()


def unsaturated(model, ds):
    """Everything on the detector, without noise floor and saturation"""
    with t.no_grad():
        inputs, _ = ds[list(range(len(ds)))]
        waves = model.forward_propagator(model.interaction(*inputs))
        return t.sum(t.abs(waves.to(t.complex128))**2, dim=-3)


def shot_probes(model):
    """The modes which illuminate each of the positions"""
    P = model.probe.detach().to(t.complex128)
    Wt = model.weights.detach()
    if Wt.dim() == 1:
        return P[None].expand(len(Wt), *P.shape)
    Wt = Wt.to(t.complex128)
    return t.einsum('nrk,kij->nrij', Wt, P)


def gram(modes):
    """Inner products of modes (..., mode, y, x)"""
    m = modes.reshape(*modes.shape[:-2], -1)
    return m @ m.conj().transpose(-1, -2)


def orthogonal(g, tol=2e-3):
    """Whether modes with this gram matrix are orthogonal and sorted"""
    p = t.diagonal(g, dim1=-2, dim2=-1).real
    total = p.sum(-1, keepdim=True)
    off = t.abs(g - t.diag_embed(t.diagonal(g, dim1=-2, dim2=-1)))
    ok = bool((off <= tol * total[..., None]).all())
    ordered = bool((p[..., :-1] - p[..., 1:] >= -tol * total).all())
    return ok, ordered


def scramble(model, op):
    """Another way to write down the same kind of light field"""
    r = t.Generator().manual_seed(op['seed'])
    P = model.probe.data
    n = P.shape[0]

    def noise(*shape):
        return t.complex(t.randn(*shape, generator=r),
                         t.randn(*shape, generator=r))
    how = op['how']
    if how == 'mix':
        model.probe.data = t.einsum('ab,bij->aij', noise(n, n).to(P.dtype), P)
    elif how == 'empty':
        model.probe.data[-1] = 0
    elif how == 'copy':
        model.probe.data[-1] = P[0] * (.5 + .2j)
    elif how == 'weak':
        model.probe.data[0] *= 1e-3
    else:
        model.probe.data *= t.exp(1j * noise(n, 1, 1).real).to(P.dtype)
    if model.weights.dim() > 1 and how == 'mix':
        w = model.weights.data
        model.weights.data = w + .2 * (
            noise(*w.shape) if w.is_complex() else
            t.randn(*w.shape, generator=r)).to(w.dtype)


def close(a, b, rtol=2e-3):
    if a.shape != b.shape:
        return False
    scale = float(b.abs().max())
    return bool(((a - b).abs() <= rtol * (b.abs() + .02 * scale)).all())


def tidy(model, ds, run, where, fail_at=None, error='memory'):
    """Tidies up, and checks everything which should and shouldn't change"""
    before = {k: v.clone() for k, v in W.state(model).items()}
    params = dict(model.named_parameters())
    grads = {k: (p.requires_grad, p.dtype, p.shape)
             for k, p in params.items()}
    records = S.snapshot(model)
    records.pop('state')
    expected = predictions(model, ds)
    light = unsaturated(model, ds)
    shots = shot_probes(model)
    power = t.diagonal(gram(shots), dim1=-2, dim2=-1).real.sum(-1)
    scale = float(power.max())
    if not np.isfinite(scale) or not bool(t.isfinite(light).all()) \
            or scale == 0:
        return False
    failed = None
    with FailingSVD(fail_at, error) as svd:
        try:
            model.tidy_probes()
        except (MemoryError, t.linalg.LinAlgError) as e:
            if not svd.fired:
                raise
            failed = e
    if svd.fired:
        run.probe('fault:decomposition_failed')
        run.check(failed is not None, 'error swallowed', where)
    got = unsaturated(model, ds)
    run.check(bool(t.isfinite(got).all()), 'not finite', where)
    run.check(close(got, light), 'predictions changed', lambda:
              'by %.3g of at most %.3g; %s%s' % (
                  float((got - light).abs().max()), float(light.max()), where,
                  ', which failed' if failed else ''))
    run.check(close(predictions(model, ds), expected), 'patterns changed',
              where)
    now = W.state(model)
    changed = sorted(k for k in set(before) | set(now)
                     if k not in before or k not in now
                     or not W.same_tensor(before[k], now[k]))
    allowed = {'probe', 'weights'} if model.weights.dim() > 1 else {'probe'}
    run.check(set(changed) <= allowed, 'more than the probes changed',
              lambda: '%s; %s' % (changed, where))
    params2 = dict(model.named_parameters())
    run.check(all(params2.get(k) is p for k, p in params.items())
              and len(params) == len(params2), 'parameters replaced', where)
    now = {k: (p.requires_grad, p.dtype, p.shape) for k, p in params2.items()}
    run.check(now == grads, 'parameters have other properties', lambda:
              '%s; %s' % ([(k, grads[k], now[k]) for k in now
                           if now[k] != grads[k]], where))
    r2 = S.snapshot(model)
    r2.pop('state')
    run.check(r2 == records, 'records changed', where)
    if failed:
        return True
    g = gram(model.probe.detach().to(t.complex128))
    ok, ordered = orthogonal(g)
    run.check(ok, 'probes not orthogonal', lambda: '%s; %s' % (
        g.abs().tolist(), where))
    run.check(ordered, 'probes not sorted', lambda: '%s; %s' % (
        t.diagonal(g).real.tolist(), where))
    after = shot_probes(model)
    gs = gram(after)
    p2 = t.diagonal(gs, dim1=-2, dim2=-1).real.sum(-1)
    run.check(bool(((p2 - power).abs() <= 1e-3 * scale).all()),
              'power changed', lambda: '%s instead of %s; %s' % (
                  p2.tolist(), power.tolist(), where))
    # The state of the light for each shot, as a density matrix
    a, b = (m.reshape(*m.shape[:2], -1) for m in (after, shots))
    rho_a, rho_b = (m.transpose(-1, -2) @ m.conj() for m in (a, b))
    run.check(bool(((rho_a - rho_b).abs() <= 2e-3 * rho_b.abs().amax(
        (-1, -2), keepdim=True) + 1e-6 * scale).all()),
        'illumination changed', where)
    if model.weights.dim() > 1:
        ok, ordered = orthogonal(gs)
        run.check(ok, 'modes of a shot not orthogonal', where)
        run.check(ordered, 'modes of a shot not sorted', where)
        # The probes describe the mean shot
        total = t.diagonal(g).real.sum()
        run.check(abs(float(total) - float(power.mean())) <=
                  1e-3 * float(power.mean()), 'probes not normalized', lambda:
                  '%s instead of %s; %s' % (float(total),
                                            float(power.mean()), where))
        if hasattr(model, 'get_probe_intensities'):
            i = np.asarray(model.get_probe_intensities())
            run.check(bool(np.all(np.abs(i - (power / power.mean()).numpy())
                                  <= 2e-3 * i.max())),
                      'probe intensities', lambda: '%s instead of %s; %s' % (
                          i.tolist(), (power / power.mean()).tolist(), where))
    run.probe('tidied with %d modes, weights %dd' % (
        len(model.probe), model.weights.dim()))
    return True


def run(sc, run):
    sys = sc['system']
    kind = S.kind_of(sys)
    model, ds = S.make_system(sys)
    run.tags.append('model:' + kind)
    if model.weights.dim() > 1:
        run.tags.append('weights:matrix')
    tidied = 0
    for oi, op in enumerate(sc['ops']):
        where = 'operation %d (%s) of %s %s' % (
            oi, {k: v for k, v in op.items() if k != 'kw'}, kind,
            sys['model']['kw'])
        if op['op'] == 'tidy':
            tidied += tidy(model, ds, run, where, op['fail_at'], op['error'])
        elif op['op'] == 'scramble':
            scramble(model, op)
        elif op['op'] == 'reload':
            with vfs.disk():
                if op['h5']:
                    path = os.path.join(run.scratch(), 'results')
                    model.save_to_h5(path)
                    model = type(model).from_results_h5(path)
                else:
                    model = type(model).from_results_dict(
                        model.save_results())
        elif op['op'] == 'inspect':
            with run.sim({}, trace=False):
                model.inspect(ds)
            plt.close('all')
        else:
            t.manual_seed(sc['seed'] + oi)
            rnd = random.Random('%s/%d' % (sc['plan_seed'], oi))
            plan = {'pre': sorted([rnd.randint(1, 4000), rnd.randint(0, 3)]
                                  for _ in range(rnd.choice([0, 0, 5, 20])))}
            count = 0
            with run.sim(plan), S.quiet():
                gen = S.start(model, ds, op, op['thread'])
                while True:
                    # This is the way it is used in the examples
                    if op['tidy_after'] == count:
                        tidied += tidy(model, ds, run,
                                       where + ' after %d epochs' % count)
                    try:
                        next(gen)
                    except StopIteration:
                        break
                    count += 1
                    run.probe('epochs')
            run.check(count == op['iterations'], 'epochs missing', where)
        if run.violations:
            return
    run.nontrivial = tidied > 0
    run.note_state(W.state(model))
