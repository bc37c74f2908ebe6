"""Disk errors, full disks, and crashes while something is saved or loaded
never go unnoticed"""
import hashlib
import os
import random
import warnings
import numpy as np
import torch as t
from cdtools.datasets import CDataset, Ptycho2DDataset
from cdtools.tools.data import h5_to_nested_dict, nested_dict_to_h5
from . import p10
from .. import session as S, vfs, world as W
from ..common import isolated, from_cdtools
from .p09 import flat, look

WRITE = ['ENOSPC', 'ENOSPC', 'EIO', 'EDQUOT']
READ = ['EIO', 'EIO', 'ESTALE']


def generate(rnd):
    kind = rnd.choice(['dataset', 'dataset', 'results', 'results',
                       'checkpoint', 'dict'])
    sc = {'kind': kind, 'seed': rnd.randrange(10**6), 'plan': {}}
    if kind == 'dataset':
        sc['spec'] = p10.gen_spec(rnd)
        # large enough that it does not fit into a buffer
        if rnd.random() < .5:
            sc['spec'].update(n=rnd.randint(10, 40), size=[24, 24])
    elif kind == 'dict':
        sc['dict'] = gen_dict(rnd)
    else:
        tiny = kind == 'checkpoint' and rnd.random() < .5
        sc['system'] = S.gen_system(rnd, float(tiny), n=4)
        sc['epochs'] = rnd.choice([0, 1])
    sc['faults'] = [[rnd.choice(['save', 'save', 'save', 'load', 'load',
                                 'load', 'kill', 'truncate']),
                     rnd.random(), rnd.randrange(10**6), rnd.random() < .5]
                    for _ in range(rnd.randint(2, 4))]
    return sc


def gen_dict(rnd, depth=0):
    d = {}
    for i in range(rnd.randint(0 if depth else 1, 5)):
        key = rnd.choice(['a', 'b b', 'µ', 'x.y', 'n']) + str(i)
        v = rnd.choice(['float', 'int', 'bool', 'str', 'array', 'dict',
                        'complex'])
        if v == 'dict' and depth < 3:
            d[key] = gen_dict(rnd, depth + 1)
        else:
            d[key] = [v, rnd.randrange(1000)]
    return d


def make_dict(d):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict):
            out[k] = make_dict(v)
            continue
        r = np.random.RandomState(v[1])
        out[k] = {'float': lambda: float(r.normal()),
                  'int': lambda: int(r.randint(100)),
                  'bool': lambda: bool(r.randint(2)),
                  'str': lambda: 'text %d µ' % v[1],
                  'array': lambda: r.normal(size=(30, 40)),
                  'complex': lambda: t.as_tensor(
                      r.normal(size=(9, 9)) * 1j)}.get(
                          v[0], lambda: 'x')()
    return out


class Thing:
    """Something to save"""

    def __init__(self, sc):
        self.kind, self.sc = sc['kind'], sc
        if self.kind == 'dataset':
            self.obj = p10.Truth(sc['spec']).make()
        elif self.kind == 'dict':
            self.obj = make_dict(sc['dict'])
        else:
            self.obj, self.ds = S.make_system(sc['system'])
            if sc['epochs']:
                t.manual_seed(sc['seed'])
                opt = W.recon(self.obj, self.ds, 'adam', 0)
                for _ in opt.optimize(sc['epochs'], thread=False):
                    # Only then, the optimizer is a part of it
                    if self.kind == 'checkpoint':
                        break

    def save(self, path):
        if self.kind == 'dataset':
            self.obj.to_cxi(path)
        elif self.kind == 'results':
            self.obj.save_to_h5(path)
        elif self.kind == 'checkpoint':
            self.obj.save_checkpoint(checkpoint_file=path)
        else:
            nested_dict_to_h5(path, self.obj)

    def fresh(self):
        """What is going to be loaded into"""
        return S.make_system(self.sc['system'])[0] \
            if self.kind == 'checkpoint' else None

    def load(self, path, into=None):
        if self.kind == 'dataset':
            cls = type(self.obj)
            assert cls in (CDataset, Ptycho2DDataset)
            return describe(cls.from_cxi(path))
        if self.kind == 'results':
            cls = W.CLASSES[S.kind_of(self.sc['system'])]
            return describe(cls.from_results_h5(path))
        if self.kind == 'checkpoint':
            into.load_checkpoint(path)
            return describe(into)
        return describe(h5_to_nested_dict(path))

    def look(self):
        return describe(self.obj)


def describe(x):
    if isinstance(x, t.nn.Module):
        d = look('model', x)
    elif isinstance(x, CDataset):
        d = look('dataset', x)
    else:
        d = flat(x)
    return {k: hashlib.sha256(repr(v).encode()).hexdigest()[:12]
            for k, v in d.items()}


def differ(a, b):
    return [k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]


def end_of(how, result):
    return how if how != 'raised' else '%s (%s)' % (how, result)


def run(sc, run):
    warnings.simplefilter('ignore')
    folder = run.scratch()
    clean = os.path.join(folder, 'clean')
    with S.quiet(), run.sim({'wall0': 1.7e9}, trace=False):
        thing = Thing(sc)
        with vfs.disk() as disk:
            thing.save(clean)
            writing = dict(disk.counts)
        with vfs.disk() as disk:
            want = thing.load(clean, thing.fresh())
            reading = dict(disk.counts)
    run.tags.append(sc['kind'])
    content = open(clean, 'rb').read()
    for fi, (what, pos, arg, lasting) in enumerate(sc['faults']):
        r = random.Random(arg)
        path = os.path.join(folder, 'f%d' % fi)
        where = '%s: %s at %.3f' % (sc['kind'], what, pos)
        if what in ('save', 'kill'):
            save(run, thing, want, writing, what, pos, lasting, r, path)
        elif what == 'load':
            load(run, thing, want, reading, pos, lasting, r, clean)
        else:
            with open(path, 'wb') as f:
                f.write(content[:int(pos * len(content))])
            check_load(run, thing, want, path, 'truncated file', where)
            run.probe('fault:truncated')
            run.nontrivial = True
        if run.violations:
            return
    run.note(sorted(want.items()))


def fault(r, counts, pos, ops, errors, lasting):
    """At a random operation out of all"""
    names = [o for o in ops if counts.get(o)]
    op = r.choice(names)
    # as many at the end as at the beginning
    n = 1 + int(pos * counts[op]) if r.random() < .5 else \
        max(1, counts[op] - int(pos * 8))
    return [[op, n, r.choice(errors), lasting]]


def save(run, thing, want, counts, what, pos, lasting, r, path):
    plan = fault(r, counts, pos, ['open', 'write', 'write', 'write', 'flush'],
                 ['KILL', 'POWER'] if what == 'kill' else WRITE, lasting)
    where = '%s saved with %s' % (thing.kind, plan)

    def child():
        before = thing.look()
        with vfs.disk(plan) as disk:
            error = None
            try:
                thing.save(path)
            except Exception as e:
                if not from_cdtools(e):
                    raise
                error = repr(e)[:300]
        return error, differ(before, thing.look()), disk.fired

    how, result = isolated(child)
    if how == 'died':
        run.probe('fault:' + ('killed' if what == 'kill' else
                              'disk_%s_%s' % (plan[0][0], plan[0][2])))
        run.probe('process died')
        run.nontrivial = True
        if what == 'kill' and os.path.exists(path):
            check_load(run, thing, want, path, 'half-written file', where)
        run.note(where, how)
        return
    assert how == 'ok', (how, result)
    error, changed, fired = result
    for k, v in fired.items():
        run.probe('fault:' + k)
        run.nontrivial = True
    run.check(not changed, 'failed save changed the object',
              '%s; %s' % (changed, where))
    if error is None:
        how, got = isolated(lambda: thing.load(path, thing.fresh()))
        run.check(how == 'ok', 'saved file is incomplete, silently',
                  '%s: loading %s; %s' % (fired, end_of(how, got), where))
        if how == 'ok':
            run.check(got == want, 'saved file is wrong, silently',
                      '%s: %s; %s' % (fired, differ(got, want), where))
    run.note(where, error is None)


def load(run, thing, want, counts, pos, lasting, r, path):
    plan = fault(r, counts, pos, ['open', 'read', 'read', 'read', 'read'],
                 READ, lasting)
    where = '%s loaded with %s' % (thing.kind, plan)

    def child():
        into = thing.fresh()
        before = None if into is None else describe(into)
        got = error = changed = None
        with vfs.disk(plan) as disk:
            try:
                got = thing.load(path, into)
            except Exception as e:
                error = repr(e)[:300]
        if error and into is not None:
            changed = differ(before, describe(into))
        return got, error, changed, disk.fired

    how, result = isolated(child)
    if how == 'died':
        run.probe('process died')
        run.note(where, how)
        return
    assert how == 'ok', (how, result)
    got, error, changed, fired = result
    for k, v in fired.items():
        run.probe('fault:' + k)
        run.nontrivial = True
    if error is None:
        run.check(got == want, 'loaded wrong content, silently',
                  lambda: '%s: %s; %s' % (fired, differ(got, want), where))
    else:
        run.check(bool(fired), 'failed without a fault', '%s; %s' % (
            error, where))
        run.check(not changed, 'failed load changed the model',
                  '%s; %s' % (changed, where))
    run.note(where, error is None)
    # The disk recovers, and so does the program
    check_load(run, thing, want, path, 'after the error', where, True)


def check_load(run, thing, want, path, kind, where, must=False):
    def child():
        try:
            return thing.load(path, thing.fresh()), None
        except Exception as e:
            return None, repr(e)[:300]
    how, result = isolated(child)
    if how == 'died':
        run.probe('process died')
        run.check(not must, kind + ' not loadable', where)
        return
    assert how == 'ok', (how, result)
    got, error = result
    if must:
        run.check(error is None, kind + ' not loadable', '%s; %s' % (
            error, where))
    if got is not None:
        run.probe('still loaded: ' + kind)
        run.check(got == want, kind + ' loaded as something else',
                  lambda: '%s; %s' % (differ(got, want), where))
