"""Every epoch shows each selected pattern to the model exactly once, along
with its own translation"""
import torch as t
from torch.utils import data as td
from .. import session as S, world as W
from ..common import random_plan
from ..faults import Faults, FaultyDataset
from ..record import Record, instrument


def generate(rnd):
    sys = S.gen_system(rnd, tiny=.6, n=rnd.randint(5, 12))
    calls = []
    for _ in range(rnd.randint(1, 3)):
        call = S.gen_call(rnd, sys, max_iter=3)
        call['kw'].pop('line_search_fn', None)
        call['kw'].pop('amsgrad', None)
        call['kw'].pop('history_size', None)
        call['thread'] = rnd.random() < .5
        n = sys['data']['n']
        if call['opt'] == 'adam' and call['via'] == 'reconstructor' \
                and rnd.random() < .35:
            call['kw'].pop('shuffle', None)
            call['loader'] = {
                'kind': rnd.choice(['plain', 'sampler', 'batches', 'drop']),
                'batch': rnd.randint(1, 5), 'seed': rnd.randrange(1000)}
            if S.kind_of(sys) == 'rpi':
                del call['loader']
        if rnd.random() < .25:
            call['raise'] = [['dataset', rnd.randint(1, 2 * n), rnd.choice(
                ['OSError', 'RuntimeError'])]]
        calls.append(call)
    return {'system': sys, 'calls': calls, 'seed': rnd.randrange(10**6),
            'same': rnd.random() < .4, 'plan': {}}


def custom_loader(ds, spec, call):
    """A data loader of the user, and the minibatches it is going to give, if
    that is known"""
    n = len(ds)
    r = W.rng('loader', spec['seed'])
    b = spec['batch']
    if spec['kind'] == 'plain':
        order = list(range(n))
        batches = [order[i:i + b] for i in range(0, n, b)]
        return td.DataLoader(ds, batch_size=b, shuffle=False), batches
    if spec['kind'] == 'drop':
        order = list(range(n))
        batches = [order[i:i + b] for i in range(0, n - b + 1, b)]
        if not batches:
            return custom_loader(ds, dict(spec, kind='plain'), call)
        return td.DataLoader(ds, batch_size=b, drop_last=True), batches
    order = r.sample(range(n), n)
    if spec['kind'] == 'sampler':
        batches = [order[i:i + b] for i in range(0, n, b)]
        return td.DataLoader(ds, batch_size=b, sampler=order), batches
    batches, i = [], 0
    while i < n:
        k = r.randint(1, 4)
        batches.append(order[i:i + k])
        i += k
    return td.DataLoader(ds, batch_sampler=batches), batches


def run(sc, run):
    ds = W.make_dataset(sc['system']['data'], FaultyDataset)
    if 'tiny' in sc['system']:
        model = W.make_tiny(sc['system']['tiny'], ds)
    else:
        model = W.make_model(sc['system']['model'], ds)
    truth_tr, truth_pat = ds.translations.clone(), ds.patterns.clone()
    rec = Record()
    instrument(model, rec)
    t.manual_seed(sc['seed'])
    reconstructors = {}
    run.tags.append('model:' + S.kind_of(sc['system']))
    for ci, call in enumerate(sc['calls']):
        faults = Faults(call.get('raise', []))
        faults.armed = True
        ds.faults = faults
        sel = S.selected(call, len(ds))
        extra, expect = {}, None
        if 'loader' in call:
            loader, expect = custom_loader(ds, call['loader'], call)
            extra['custom_data_loader'] = loader
            sel = [i for b in expect for i in b]
            run.tags.append('loader:' + call['loader']['kind'])
        key = (call['opt'], str(call.get('subset')),
               str(call.get('lr_factors')))
        r = None
        if call['via'] == 'reconstructor':
            r = reconstructors.get(key) if sc['same'] else None
            if r is None:
                r = W.recon(model, ds, call['opt'], call.get('subset'),
                            call.get('lr_factors'))
            reconstructors[key] = r
        epochs = []
        failed = None
        with run.sim({}, trace=False), S.quiet():
            rec.start()
            try:
                for loss in S.start(model, ds, call, call['thread'], r,
                                    **extra):
                    epochs.append(rec.evals)
                    rec.start()
            except Exception as e:
                failed = e
                if not any(e is x for x in faults.raised):
                    raise
                run.probe('fault:read_error')
        where = 'call %d (%s)' % (ci, call)
        check_epochs(run, call, epochs, sel, expect, len(ds), where,
                     truth_tr, truth_pat, ds, model)
        if failed is not None:
            seen = [i for e in rec.evals for i in e['index']]
            if call['opt'] != 'lbfgs':
                run.check(len(set(seen)) == len(seen) and
                          set(seen) <= set(sel), 'interrupted epoch',
                          'visited %s; %s' % (seen, where))
            check_data(run, rec.evals, truth_tr, truth_pat, ds, model, where)
        elif not faults.raised:
            run.check(len(epochs) == call['iterations'], 'number of epochs',
                      '%d epochs; %s' % (len(epochs), where))
    run.nontrivial = True
    run.note([len(e) for e in epochs], [float(x) for x in model.loss_history])
    run.check(bool(t.equal(ds.translations, truth_tr))
              and bool(t.equal(ds.patterns, truth_pat)), 'dataset modified')


def check_epochs(run, call, epochs, sel, expect, n, where, tr, pat, ds,
                 model):
    kw = call['kw']
    batch = {'adam': kw.get('batch_size', 15),
             'sgd': kw.get('batch_size'),
             'lbfgs': len(sel)}[call['opt']]
    if batch is None:
        batch = 1
    width = call['calculation_width']
    orders = []
    for ei, evals in enumerate(epochs):
        at = 'epoch %d of %s' % (ei, where)
        seen = [i for e in evals for i in e['index']]
        chunks = [len(e['index']) for e in evals]
        run.check(max(chunks, default=0) <= width, 'chunk too large',
                  '%s at once; %s' % (chunks, at))
        if call['opt'] == 'lbfgs':
            # the loss is evaluated several times, each time with all data
            k = len(sel)
            ok = len(seen) >= k and len(seen) % k == 0 and all(
                sorted(seen[i:i + k]) == sorted(sel)
                for i in range(0, len(seen), k))
            run.check(ok, 'patterns visited', '%s instead of %s; %s'
                      % (seen, sel, at))
            seen = seen[:k]
        else:
            run.check(sorted(seen) == sorted(sel), 'patterns visited',
                      '%s instead of %s; %s' % (sorted(seen), sorted(sel),
                                                at))
            # minibatches are cut into chunks, which never span two of them
            sizes = [len(b) for b in expect] if expect is not None else \
                [min(batch, len(sel) - i) for i in range(0, len(sel), batch)]
            want = [min(width, s - i) for s in sizes
                    for i in range(0, s, width)]
            run.check(chunks == want, 'minibatch sizes',
                      '%s instead of %s; %s' % (chunks, want, at))
        if expect is not None:
            flat = [i for b in expect for i in b]
            run.check(seen == flat, 'order of custom loader',
                      '%s instead of %s; %s' % (seen, flat, at))
        elif kw.get('shuffle') is False:
            run.check(seen == list(sel), 'order without shuffling',
                      '%s instead of %s; %s' % (seen, sel, at))
        else:
            orders.append(seen)
        check_data(run, evals, tr, pat, ds, model, at)
        run.probe('epochs')
    if len(sel) >= 7 and len(orders) >= 3:
        run.probe('shuffles compared')
        run.check(not all(o == list(sel) for o in orders), 'never shuffled',
                  where)
        run.check(not all(o == orders[0] for o in orders),
                  'always the same order', where)


def check_data(run, evals, tr, pat, ds, model, where):
    for e in evals:
        idx = t.as_tensor(e['index'])
        run.check(W.same_tensor(e['translations'].reshape(len(idx), -1),
                                tr[idx]), 'wrong translations',
                  'with patterns %s; %s' % (e['index'], where))
        if 'real' in e:
            run.check(W.same_tensor(e['real'], pat[idx]), 'wrong patterns',
                      'for indices %s; %s' % (e['index'], where))
            if getattr(model, 'mask', None) is not None:
                run.check(e['mask'] is not None and bool(t.equal(
                    e['mask'].bool(), ds.mask.bool())), 'wrong mask', where)
