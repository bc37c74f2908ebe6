"""Histories of calls to optimize do what the optimizers are documented to do:
compared with a plain training loop"""
import copy
import numpy as np
import torch as t
from .. import session as S, world as W

NAMES = ['obj', 'weights', 'amp', 'fixed']


def generate(rnd):
    n = rnd.randint(4, 7)
    sys = {'tiny': W.gen_tiny(rnd), 'data': W.gen_dataset(rnd, n=n)}
    sys['tiny']['normalizer'] = rnd.choice([None, 'amplitude', 'intensity'])
    ops, recs = [], []
    # Sometimes one reconstructor with schedules which have to do something
    scheduled = rnd.random() < .15
    for _ in range(rnd.randint(1, 5)):
        u = rnd.random()
        if scheduled:
            if len(ops) == 3:
                break
            u = 1.
        if u < .15 and ops:
            ops.append({'op': rnd.choice(['freeze', 'unfreeze', 'perturb']),
                        'name': rnd.choice(['obj', 'amp'])})
            continue
        if recs and (scheduled or rnd.random() < .6):
            ri = rnd.randrange(len(recs))
            rec = recs[ri]
        else:
            opt = rnd.choice(['adam', 'adam', 'sgd', 'lbfgs'])
            if scheduled:
                opt = 'adam'
            rec = {'opt': opt, 'history_size': rnd.choice([2, 3]),
                   'amsgrad': rnd.random() < .3}
            if rnd.random() < .4:
                rec['subset'] = rnd.sample(range(n), rnd.randint(1, n))
                if rnd.random() < .2:
                    rec['subset'] = rec['subset'][0]
            if opt != 'lbfgs' and rnd.random() < .4:
                rec['lr_factors'] = gen_factors(rnd)
            ri = len(recs)
            recs.append(rec)
        call = {'op': 'optimize', 'rec': ri, 'opt': rec['opt'],
                'iterations': rnd.randint(1, 3),
                'calculation_width': rnd.choice([1, 2, 3, 10]),
                'thread': rnd.random() < .4, 'via': 'reconstructor'}
        u = rnd.random()
        if u < .15:
            call['via'] = 'method'
        elif u < .28:
            call.update(via='steps', thread=False)
        kw = {}
        if rec['opt'] == 'adam':
            W.maybe(rnd, kw, .8, 'batch_size', 1, 2, 3, n)
            W.maybe(rnd, kw, .8, 'lr', .003, .02, .1)
            W.maybe(rnd, kw, .4, 'betas', [.8, .9], [.5, .99])
            # It can be turned off, but torch can't turn it on later
            if rec['amsgrad']:
                if call['via'] == 'method' or rnd.random() < .7:
                    kw['amsgrad'] = True
                else:
                    rec['amsgrad'] = False
            if rnd.random() < (.85 if scheduled else .4):
                kw['schedule'] = True
            # Often enough for the schedule to matter, if there is one
            if scheduled or rnd.random() < .3:
                call['iterations'] = rnd.randint(9 if scheduled else 14, 30)
                kw['lr'] = rnd.choice([.3, 1., .02])
                kw['batch_size'] = n
        elif rec['opt'] == 'sgd':
            W.maybe(rnd, kw, .8, 'batch_size', 1, 2, 3, n)
            W.maybe(rnd, kw, .9, 'lr', 1e-4, 1e-3, 3e-3)
            W.maybe(rnd, kw, .5, 'momentum', .5, .9)
            if kw.get('momentum'):
                W.maybe(rnd, kw, .4, 'nesterov', True)
                if not kw.get('nesterov'):
                    W.maybe(rnd, kw, .4, 'dampening', .2)
            W.maybe(rnd, kw, .3, 'weight_decay', .01, .1)
        else:
            W.maybe(rnd, kw, .8, 'lr', .01, .1)
            kw['history_size'] = rec['history_size']
            W.maybe(rnd, kw, .3, 'line_search_fn', 'strong_wolfe')
        W.maybe(rnd, kw, .3, 'regularization_factor', [.1, .01], [0., 1.])
        if rec['opt'] != 'lbfgs' and call['via'] != 'method':
            if rnd.random() < .25:
                call['lr_factors'] = gen_factors(rnd)
            W.maybe(rnd, kw, .3, 'shuffle', False)
        if call['via'] == 'steps':
            kw.pop('schedule', None)
            kw.setdefault('lr', DEFAULT_LR[rec['opt']])
        call['kw'] = kw
        ops.append(call)
    return {'system': sys, 'ops': ops, 'recs': recs,
            'seed': rnd.randrange(10**6), 'plan': {}}


def gen_factors(rnd):
    return {k: rnd.choice([0., .1, .5, 3.]) for k in
            rnd.sample(NAMES, rnd.randint(1, 3))}


DEFAULT_LR = {'adam': .005, 'sgd': 2e-7, 'lbfgs': .1}


def steps(r, call, batch, extra):
    """A loop of the user's own, from the parts of a reconstructor"""
    kw = dict(call['kw'], **extra)
    kw.pop('batch_size', None)
    reg, shuffle = (kw.pop('regularization_factor', None),
                    kw.pop('shuffle', True))
    r.adjust_optimizer(**kw)
    r.scheduler = None
    r.setup_dataloader(batch_size=batch, shuffle=shuffle)
    for _ in range(call['iterations']):
        yield r.run_epoch(regularization_factor=reg,
                          calculation_width=call['calculation_width'])


class Reference:
    """A reconstructor, as a plain loop"""

    def __init__(self, model, rec):
        self.model, self.rec = model, rec
        self.factors = dict(rec.get('lr_factors') or {})
        groups = [{'params': [p], 'name': k}
                  for k, p in model.named_parameters()]
        if rec['opt'] == 'adam':
            self.opt = t.optim.Adam(groups)
        elif rec['opt'] == 'sgd':
            self.opt = t.optim.SGD(groups)
        else:
            self.opt = t.optim.LBFGS(list(model.parameters()))

    def setup(self, call):
        kw, opt = call['kw'], call['opt']
        if 'lr_factors' in call:
            self.factors = dict(call['lr_factors'])
        lr = kw.get('lr', DEFAULT_LR[opt])
        for g in self.opt.param_groups:
            g['lr'] = lr * self.factors.get(g.get('name'), 1.)
            if opt == 'adam':
                g['betas'] = tuple(kw.get('betas', (.9, .999)))
                g['amsgrad'] = kw.get('amsgrad', False)
            elif opt == 'sgd':
                g['momentum'] = kw.get('momentum', 0)
                g['dampening'] = kw.get('dampening', 0)
                g['weight_decay'] = kw.get('weight_decay', 0)
                g['nesterov'] = kw.get('nesterov', False)
            else:
                g['history_size'] = kw.get('history_size', 2)
                g['line_search_fn'] = kw.get('line_search_fn')
        self.sched = None
        if kw.get('schedule'):
            self.sched = t.optim.lr_scheduler.ReduceLROnPlateau(
                self.opt, factor=.2, threshold=1e-9)

    def epoch(self, call, batches, ds, scale):
        m = self.model
        width = call['calculation_width']
        reg = call['kw'].get('regularization_factor')
        total = 0.
        for b in batches:
            def closure():
                self.opt.zero_grad()
                s = 0.
                for i in range(0, len(b), width):
                    idx = t.as_tensor(b[i:i + width])
                    sim = m.measurement(m.forward_propagator(m.interaction(
                        idx, ds.translations[idx])))
                    mask = getattr(m, 'mask', None)
                    loss = m.loss(ds.patterns[idx], sim, mask=mask)
                    loss.backward()
                    s = s + loss.detach()
                if reg is not None:
                    m.regularizer(reg).backward()
                return s
            total += float(self.opt.step(closure))
        total /= scale()
        if self.sched is not None:
            before = [g['lr'] for g in self.opt.param_groups]
            self.sched.step(total)
            self.reduced = before != [g['lr'] for g in self.opt.param_groups]
        return total


def run(sc, run):
    sys = sc['system']
    model, ds = S.make_system(sys)
    ref_model, _ = S.make_system(sys)
    t.manual_seed(sc['seed'])
    recs, refs = {}, {}
    pixels = []
    n = len(ds)
    run.nontrivial = True
    for oi, op in enumerate(sc['ops']):
        where = 'operation %d (%s)' % (oi, op)
        if op['op'] != 'optimize':
            for m in (model, ref_model):
                p = getattr(m, op['name'])
                if op['op'] == 'perturb':
                    p.data = p.data * 1.1
                else:
                    p.requires_grad = op['op'] == 'unfreeze'
            run.tags.append(op['op'])
            continue
        rec = sc['recs'][op['rec']]
        call = dict(op)
        call['subset'] = rec.get('subset')
        run.tags.append('%s%s' % (op['opt'], '' if op['rec'] not in recs
                                  else ' again'))
        if op['via'] == 'method':
            call['lr_factors'] = rec.get('lr_factors')
            r = None
            ref = Reference(ref_model, dict(rec))
            extra = {}
        else:
            if op['rec'] not in recs:
                recs[op['rec']] = W.recon(model, ds, rec['opt'],
                                          rec.get('subset'),
                                          rec.get('lr_factors'))
                refs[op['rec']] = Reference(ref_model, rec)
            r, ref = recs[op['rec']], refs[op['rec']]
            extra = {'lr_factors': op['lr_factors']} \
                if 'lr_factors' in op else {}
            call.pop('lr_factors', None)
        ref.setup(op)
        sel = S.selected(call, n)
        kw = op['kw']
        batch = {'adam': kw.get('batch_size', 15),
                 'sgd': kw.get('batch_size', 1 if op['via'] == 'method'
                               else 15),
                 'lbfgs': len(sel)}[op['opt']] or 1

        def scale():
            if sys['tiny']['normalizer'] is None:
                return 1.
            if not pixels:
                mask = ds.mask if sys['tiny']['mask'] else \
                    t.ones_like(ds.mask)
                pixels.append(len(sel) * int(mask.sum()))
            return pixels[0]

        epoch = 0
        with run.sim({}, trace=False), S.quiet():
            model.calls = []
            if op['via'] == 'steps':
                losses = steps(r, call, batch, extra)
            else:
                losses = S.start(model, ds, call, op['thread'], r, **extra)
            for loss in losses:
                at = 'epoch %d of %s' % (epoch, where)
                # the order is up to the data loader
                order = [i for c in model.calls for i in c[0]][:len(sel)]
                model.calls = []
                batches = [order[i:i + batch]
                           for i in range(0, len(order), batch)]
                want = ref.epoch(op, batches, ds, scale)
                ok = compare(run, model, ref_model, float(loss), want, at)
                run.probe('epochs compared')
                if getattr(ref, 'reduced', False):
                    run.probe('learning rate reduced')
                if not ok:
                    return
                epoch += 1
        run.check(epoch == op['iterations'], 'number of epochs', where)
        run.note(epoch, float(loss))
    check_text(sc, run, model)


def compare(run, model, ref, loss, want, at):
    finite = all(bool(t.isfinite(x).all()) for x in W.state(ref).values())
    if not (np.isfinite(want) and abs(want) < 1e12 and finite):
        run.probe('diverged')
        return False
    ok = run.check(abs(loss - want) <= 1e-6 * abs(want) + 1e-12,
                   'loss differs', '%r instead of %r; %s' % (loss, want, at))
    d = W.close_state(W.state(model), W.state(ref), 1e-6, 1e-12)
    return run.check(not d, 'parameters differ', '%s; %s' % (d, at)) and ok


def check_text(sc, run, model):
    """One entry for each epoch, whatever the history was"""
    run.check(model.epoch == len(model.loss_history)
              == len(S.epoch_lines(model.training_history)),
              'records inconsistent', model.training_history[-500:])
