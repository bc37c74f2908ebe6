"""What is saved to a .cxi file is what every later program loads from it"""
import datetime
import os
import pathlib
import random
import warnings
import h5py
import numpy as np
import torch as t
from cdtools.datasets import CDataset, Ptycho2DDataset
from cdtools.tools import data
from .. import vfs
from ..common import Violation

HC = 1.9864459e-25
TIMES = ['2020-01-02T03:04:05', '1999-12-31T23:59:59.999999',
         '2026-02-28T12:00:00+02:00']
TEXTS = ['title', 'a: b; c', '', '2020', '12:30', 'May', 'Prüfung µm', 'x' * 300,
         ' spaces ', '日本', '1e5', 'None', 'two\nlines']


def vec(rnd, n=3):
    return [rnd.choice([-1, 1]) * rnd.uniform(.1, 2.) for _ in range(n)]


def gen_spec(rnd):
    h, w = rnd.randint(1, 7), rnd.randint(1, 7)
    spec = {'n': rnd.randint(1, 12), 'size': [h, w],
            'seed': rnd.randrange(10**6),
            'cls': rnd.choice(['ptycho'] * 4 + ['plain']),
            'pattern_dtype': rnd.choice(['float32'] * 3 + [
                'float64', 'int32', 'int64', 'int16', 'uint8']),
            'trans_dtype': rnd.choice(['float32', 'float64']),
            'nan': rnd.random() < .2, 'negative': rnd.random() < .3,
            'mask': rnd.choice([None, None, 'bool', 'int']),
            'qe': rnd.random() < .4, 'bg': rnd.random() < .4,
            'intensities': rnd.random() < .4,
            'axes': rnd.choice([None, ['x', 'y'], ['translation', 'y', 'x'],
                                ['angle']]),
            'wavelength': rnd.choice([1e-9, 1.3e-10, 13.5e-9]),
            'wavelength_kind': rnd.choice(['float', 'np', 'tensor']),
            'distance': rnd.choice([.1, 2.5, .0333]),
            'basis': rnd.choice(['np', 'tensor', 'tilted', 'rectangular']),
            'corner': rnd.choice([None, None, 'np', 'tensor', 'absent']),
            'entry': None, 'sample': None}
    if rnd.random() < .7:
        spec['entry'] = {k: rnd.choice(TEXTS) for k in rnd.sample(
            ['title', 'experiment_identifier', 'experiment_description',
             'program_name', 'instrument_n'], rnd.randint(0, 3))}
        for k in ('start_time', 'end_time'):
            if rnd.random() < .4:
                spec['entry'][k] = rnd.choice(TIMES)
        if rnd.random() < .2:
            spec['entry']['polarization_states'] = [0., 1., .5]
    if rnd.random() < .7:
        spec['sample'] = {k: rnd.choice(TEXTS) for k in rnd.sample(
            ['name', 'description', 'unit_cell_group'], rnd.randint(0, 3))}
        for k in ('concentration', 'mass', 'temperature', 'thickness',
                  'unit_cell_volume'):
            if rnd.random() < .2:
                spec['sample'][k] = rnd.choice([0., 1.5, 300, 1e-6])
        if rnd.random() < .3:
            spec['sample']['unit_cell'] = vec(rnd, 6)
        if rnd.random() < .5:
            spec['sample']['orientation'] = vec(rnd, 6)
    return spec


def generate(rnd):
    specs = [gen_spec(rnd) for _ in range(rnd.randint(1, 3))]
    ops = []
    for i in range(rnd.randint(2, 6)):
        op = rnd.choice(['save_load'] * 5 + ['raw'] * 4 + ['read'])
        ops.append({'op': op, 'pick': rnd.randrange(1000),
                    'file': rnd.choice(['str', 'path', 'h5', 'h5', 'str',
                                        'parts']),
                    'order': rnd.randrange(10**6),
                    'load': rnd.choice(['str', 'path', 'h5']),
                    'name': rnd.choice(['a.cxi', 'b.cxi', 'ünï code.cxi']),
                    'cut': rnd.choice([None, None, True, False]),
                    'patterns': rnd.random() < .85,
                    'style': gen_style(rnd),
                    'fault': gen_fault(rnd)})
    return {'specs': specs, 'ops': ops, 'plan': {}}


def gen_fault(rnd):
    """Errors of the disk while a file is opened or read"""
    if rnd.random() < .7:
        return []
    if rnd.random() < .3:
        return [['open', rnd.randint(1, 2), rnd.choice(['EIO', 'ENOSPC']),
                 False]]
    return [['read', rnd.choice([1, 2, 5, rnd.randint(1, 80)]),
             rnd.choice(['EIO', 'ESTALE']), rnd.random() < .5]]


def gen_style(rnd):
    """How another program might have written a file"""
    return {'source': rnd.choice(['wavelength', 'energy', 'both']),
            'pixels': rnd.choice(['basis', 'basis_t', 'both_sizes', 'x', 'y',
                                  'scalar_arrays']),
            'position': rnd.choice(['distance', 'corner', 'both']),
            'data': rnd.choice(['data_1', 'detector_1', 'both']),
            'translation': rnd.choice(['data_1', 'geometry_1', 'detector_1']),
            'mask': rnd.choice([None, 'bits']),
            'dark': rnd.choice([None, 'image', 'stack', 'nan_stack', 'nan_pixels', 'many']),
            'axes': rnd.choice([None, 'bytes', 'str', 'spaces']),
            'normal': rnd.choice([None, None, 'orientation',
                                  'surface_normal']),
            'name': rnd.choice([None, 'bytes', 'array', 'str']),
            'compress': rnd.random() < .5}


# ------------------------------------------------------------------- making
class Truth:
    """What was measured, as plain data"""

    def __init__(self, spec):
        self.spec = spec
        r = np.random.RandomState(spec['seed'])
        n, (h, w) = spec['n'], spec['size']
        self.trans = r.normal(size=(n, 3)) * 1e-6
        p = r.uniform(0, 200, (n, h, w))
        if spec['negative']:
            p -= 50
        if spec['pattern_dtype'] == 'uint8':
            p = np.abs(p)
        p = p.astype(spec['pattern_dtype'])
        if spec['nan'] and p.dtype.kind == 'f':
            p[r.uniform(size=p.shape) < .05] = np.nan
        self.patterns = p
        self.mask = None if spec['mask'] is None else \
            r.uniform(size=(h, w)) > .3
        self.qe = r.uniform(.5, 1.5, (h, w)) if spec['qe'] else None
        self.bg = r.uniform(0, 2, (h, w)) if spec['bg'] else None
        self.intensities = r.uniform(.5, 1.5, n) if spec['intensities'] \
            else None
        if spec['basis'] == 'rectangular':
            b = [[0, -3e-5], [-2e-5, 0], [0, 0]]
        elif spec['basis'] == 'tilted':
            b = r.normal(size=(3, 2)) * 1e-5
        else:
            b = [[0, -2e-5], [-2e-5, 0], [0, 0]]
        self.basis = np.array(b)
        self.corner = None if spec['corner'] in (None, 'absent') else \
            r.normal(size=3) * .1

    def make(self):
        s = self.spec
        lam = s['wavelength']
        if s['wavelength_kind'] == 'np':
            lam = np.float32(lam)
        elif s['wavelength_kind'] == 'tensor':
            lam = t.tensor(lam)
        basis = t.as_tensor(self.basis, dtype=t.float32) \
            if s['basis'] == 'tensor' else self.basis.copy()
        geom = {'distance': s['distance'], 'basis': basis}
        if s['corner'] != 'absent':
            geom['corner'] = self.corner if s['corner'] != 'tensor' \
                else t.as_tensor(self.corner)
        entry, sample = s['entry'], s['sample']
        if entry is not None:
            entry = dict(entry)
            for k in ('start_time', 'end_time'):
                if k in entry:
                    entry[k] = datetime.datetime.fromisoformat(entry[k])
        if sample is not None:
            sample = dict(sample)
            if 'unit_cell' in sample:
                sample['unit_cell'] = np.array(sample['unit_cell'])
            if 'orientation' in sample:
                sample['orientation'] = orientation(sample['orientation'])
        mask = self.mask
        if s['mask'] == 'int':
            mask = mask.astype(int)
        kw = dict(entry_info=entry, sample_info=sample, wavelength=lam,
                  detector_geometry=geom, mask=mask, qe_mask=self.qe,
                  background=self.bg)
        if s['cls'] == 'plain':
            return CDataset(**kw)
        return Ptycho2DDataset(
            self.trans.astype(s['trans_dtype']), t.as_tensor(
                self.patterns.copy()), axes=s['axes'],
            intensities=self.intensities, **kw)


def orientation(six):
    x, y = np.array(six[:3]), np.array(six[3:])
    x, y = x / np.linalg.norm(x), y / np.linalg.norm(y)
    return np.array([x, y, np.cross(x, y)])


# ------------------------------------------------------------------ comparing
def as_np(x):
    if isinstance(x, t.Tensor):
        x = x.detach().cpu().numpy()
    return None if x is None else np.asarray(x)


def same(a, b, rtol=0.):
    a, b = as_np(a), as_np(b)
    if a is None or b is None:
        return a is None and b is None
    if a.shape != b.shape:
        return False
    if rtol:
        return np.allclose(a, b, rtol=rtol, atol=0. if a.ndim == 0 or not
                           a.size else .1 * rtol * np.max(np.abs(b)))
    return np.array_equal(a, b, equal_nan=a.dtype.kind == 'f')


def expectation(ds, cut=True, load=True):
    """What has to be loaded after ds was saved"""
    f4 = np.float32

    def get(name, dtype):
        x = as_np(getattr(ds, name, None))
        return None if x is None else x.astype(dtype)

    out = {'wavelength': f4(as_np(ds.wavelength)),
           'distance': f4(as_np(ds.detector_geometry['distance'])),
           'basis': as_np(ds.detector_geometry['basis']),
           'corner': as_np(ds.detector_geometry.get('corner')),
           'qe': get('qe_mask', f4), 'bg': get('background', f4),
           'mask': get('mask', bool)}
    entry = dict(ds.entry_info or {})
    entry.pop('instrument_n', None)      # is not a part of the format
    out['entry'] = entry
    sample = dict(ds.sample_info or {})
    for k, v in sample.items():
        if not isinstance(v, str) and k != 'orientation':
            sample[k] = as_np(v).astype(f4)
    out['sample'] = sample
    if isinstance(ds, Ptycho2DDataset):
        p = as_np(ds.patterns)
        mask = out['mask'] if out['mask'] is not None else \
            np.ones(p.shape[-2:], dtype=bool)
        if p.dtype.kind == 'f':
            mask = mask & ~np.isnan(p).any(axis=0)
            p = np.nan_to_num(p, nan=0.)
        if p.dtype == np.float64:
            p = p.astype(f4)
        if cut:
            p = np.maximum(p, 0)
        out['mask'] = mask
        out['trans'] = get('translations', f4)
        out['intensities'] = get('intensities', f4)
        out['patterns'], out['axes'] = p, ds.axes
    return out


def differences(ds, want, load=True):
    geometry = ds.detector_geometry or {}
    got = {'wavelength': ds.wavelength,
           'distance': geometry.get('distance'),
           'basis': geometry.get('basis'),
           'corner': geometry.get('corner'),
           'qe': ds.qe_mask, 'bg': ds.background, 'mask': ds.mask}
    if 'trans' in want and isinstance(ds, Ptycho2DDataset):
        got['trans'] = ds.translations
        got['intensities'] = ds.intensities
        if load:
            got['patterns'] = ds.patterns
    out = []
    if not load and getattr(ds, 'patterns', None) is not None:
        out.append('patterns: loaded although only the rest was requested')
    for k, v in got.items():
        if k == 'mask' and not load:
            continue
        if not same(v, want[k], 1e-6 if k == 'bg' else 0.):
            out.append('%s: %s instead of %s' % (k, short(v), short(want[k])))
        elif v is not None and k not in ('wavelength', 'distance', 'basis',
                                         'corner') and \
                as_np(v).dtype != as_np(want[k]).dtype:
            out.append('%s: %s instead of %s' % (
                k, as_np(v).dtype, as_np(want[k]).dtype))
    if 'patterns' in got and ds.axes != want['axes']:
        out.append('axes: %s instead of %s' % (ds.axes, want['axes']))
    for k, v in (('entry', ds.entry_info), ('sample', ds.sample_info)):
        v, w = v or {}, want[k]
        if set(v) != set(w):
            out.append('%s: %s instead of %s' % (k, sorted(v), sorted(w)))
            continue
        for key in v:
            if isinstance(w[key], (str, datetime.datetime)):
                ok = v[key] == w[key] and type(v[key]) is type(w[key])
            else:
                ok = same(v[key], w[key], 1e-5)
            if not ok:
                out.append('%s: %s is %r instead of %r' % (
                    k, key, v[key], w[key]))
    return out


def short(x):
    x = as_np(x)
    return 'None' if x is None else '%s%s %s' % (
        x.dtype, x.shape, np.array2string(x.ravel()[:4]))


# ----------------------------------------------------- another program's view
def raw_problems(f, ds):
    """Checks a saved file against the format, without the code under test"""
    out = []
    want = expectation(ds, cut=False)

    def expect(path, value, rtol=0.):
        if path not in f:
            if value is not None:
                out.append(path + ' is missing')
        elif value is None:
            out.append(path + ' should not exist')
        elif not same(f[path][()], value, rtol):
            out.append('%s: %s instead of %s' % (
                path, short(f[path][()]), short(value)))

    e, det = 'entry_1', 'entry_1/instrument_1/detector_1'
    expect('cxi_version', 160)
    expect('number_of_entries', 1)
    expect('entry_1/instrument_1/source_1/wavelength', want['wavelength'])
    expect('entry_1/instrument_1/source_1/energy',
           HC / float(want['wavelength']), 1e-5)
    expect(det + '/distance', want['distance'])
    expect(det + '/basis_vectors', want['basis'])
    expect(det + '/x_pixel_size', np.linalg.norm(want['basis'][:, 1]), 1e-6)
    expect(det + '/y_pixel_size', np.linalg.norm(want['basis'][:, 0]), 1e-6)
    expect(det + '/corner_position', want['corner'])
    expect(det + '/qe_mask', want['qe'])
    expect(det + '/data_dark', want['bg'])
    own = as_np(ds.mask)
    expect(det + '/mask', None if own is None else (~own).astype(np.uint32))
    if 'trans' in want:
        p = as_np(ds.patterns)
        expect(det + '/data', p)
        expect(e + '/data_1/data', p)
        for place in (e + '/data_1', e + '/sample_1/geometry_1', det):
            expect(place + '/translation', -as_np(ds.translations))
            expect(place + '/intensities', want['intensities'])
        axes = f[det + '/data'].attrs.get('axes')
        ok = axes is None if ds.axes is None else \
            axes is not None and axes.decode().split(':') == list(ds.axes)
        if not ok:
            out.append('axes: %r' % axes)
    for k, v in (ds.entry_info or {}).items():
        if isinstance(v, str):
            v = v.encode('utf-8')
        elif isinstance(v, datetime.datetime):
            v = v.isoformat().encode()
        x = f['entry_1'][k][()] if k in f['entry_1'] else None
        if isinstance(v, bytes):
            if x != v.rstrip(b'\0'):
                out.append('entry_1/%s: %r instead of %r' % (k, x, v))
        elif x is None or not same(x, v):
            out.append('entry_1/%s: %r' % (k, x))
    return out


def write_raw(path, truth, style):
    """A file as another program would write it. Returns what it means"""
    f4 = np.float32
    s = truth.spec
    want = {'entry': {}, 'sample': {}, 'qe': None, 'axes': None,
            'intensities': None}
    p, trans = truth.patterns, truth.trans.astype(f4)
    with h5py.File(path, 'w') as f:
        f['cxi_version'] = 150
        src = f.create_group('entry_1/instrument_1/source_1')
        lam = s['wavelength']
        if style['source'] != 'energy':
            src['wavelength'] = lam
            want['wavelength'] = f4(lam)
        if style['source'] != 'wavelength':
            src['energy'] = HC / lam
            want.setdefault('wavelength', f4(HC / f4(HC / lam)))
        det = f.create_group('entry_1/instrument_1/detector_1')
        b = truth.basis
        if style['pixels'] == 'basis':
            det['basis_vectors'] = b
        elif style['pixels'] == 'basis_t':
            det['basis_vectors'] = b.T
        else:
            x, y = 2e-5, 3e-5
            if style['pixels'] in ('x', 'both_sizes'):
                det['x_pixel_size'] = x
            if style['pixels'] in ('y', 'both_sizes'):
                det['y_pixel_size'] = y
            if style['pixels'] == 'scalar_arrays':
                det['x_pixel_size'] = f4(x)
                det['y_pixel_size'] = f4(y)
            x = y if style['pixels'] == 'y' else x
            y = x if style['pixels'] == 'x' else y
            b = np.array([[0, -f4(x)], [-f4(y), 0], [0, 0]])
        want['basis'] = b
        corner = np.array([.01, .02, .5])
        want['corner'] = None
        if style['position'] != 'corner':
            det['distance'] = s['distance']
            want['distance'] = f4(s['distance'])
        if style['position'] != 'distance':
            det['corner_position'] = corner
            want['corner'] = corner
            if style['position'] == 'corner':
                normal = np.cross(b[:, 0], b[:, 1])
                want['distance'] = abs(corner @ normal) / np.linalg.norm(
                    normal)
        if style['data'] == 'data_1':
            d = f.create_dataset('entry_1/data_1/data', data=p,
                                 compression='gzip' if style['compress']
                                 else None)
        else:
            d = det.create_dataset('data', data=p)
            if style['data'] == 'both':
                f['entry_1/data_1/data'] = h5py.SoftLink(d.name)
        if style['axes']:
            text = ' Angle : y:X' if style['axes'] == 'spaces' \
                else 'translation:y:x'
            d.attrs['axes'] = np.bytes_(text) if style['axes'] == 'bytes' \
                else text
            want['axes'] = [a.strip().lower() for a in text.split(':')]
        place = {'data_1': 'entry_1/data_1', 'detector_1': det.name,
                 'geometry_1': 'entry_1/sample_1/geometry_1'}
        f[place[style['translation']] + '/translation'] = -trans
        want['trans'] = trans
        mask = np.ones(p.shape[-2:], dtype=bool)
        if style['mask']:
            r = np.random.RandomState(s['seed'])
            bits = r.choice([0, 0x1000, 1, 2, 0x1001, 0x80000000],
                            p.shape[-2:]).astype(np.uint32)
            det['mask'] = bits
            mask = (bits == 0) | (bits == 0x1000)
        if p.dtype.kind == 'f':
            mask &= ~np.isnan(p).any(axis=0)
        want['mask'] = mask
        want['bg'] = None
        if style['dark']:
            r = np.random.RandomState(7)
            bg = r.uniform(0, 2, {'image': (), 'many': (2, 3)}.get(
                style['dark'], (3,)) + p.shape[-2:])
            if style['dark'] == 'nan_stack':
                bg[1] = np.nan
            elif style['dark'] in ('nan_pixels', 'many'):
                # Some pixels are missing in some of the frames
                flat = bg.reshape((-1,) + p.shape[-2:])
                flat[1:][r.rand(*flat[1:].shape) < .3] = np.nan
            det['data_dark'] = bg
            want['bg'] = np.nanmean(
                bg, tuple(range(bg.ndim - 2))).astype(f4) \
                if bg.ndim > 2 else bg.astype(f4)
        g = 'entry_1/sample_1/'
        if style['normal'] == 'orientation':
            six = [2., 0., 1., 0., 3., 0.]
            f[g + 'geometry_1/orientation'] = np.array(six)
            want['sample']['orientation'] = orientation(six)
        elif style['normal']:
            sn = np.array([.6, 0., .8], dtype=f4)
            f[g + 'geometry_1/surface_normal'] = sn
            want['sample']['orientation'] = np.array(
                [[.8, 0, -.6], [0, 1, 0], [.6, 0, .8]])
        if style['name'] == 'bytes':
            f[g + 'name'] = np.bytes_('gold')
        elif style['name'] == 'array':
            f[g + 'name'] = np.array([b'gold'])
        elif style['name'] == 'str':
            f[g + 'name'] = 'gold'
        if style['name']:
            want['sample']['name'] = 'gold'
    return want, p


# -------------------------------------------------------------------- running
def target(path, kind):
    return pathlib.Path(path) if kind == 'path' else path


def attempt(run, disk, fault, fn):
    """Does something, and does it again if the disk failed"""
    disk.plan, disk.counts = fault, {}
    before = sum(disk.fired.values())
    try:
        return fn()
    except (OSError, KeyError, RuntimeError):
        if sum(disk.fired.values()) == before:
            raise
        run.probe('tried again')
    finally:
        disk.plan = []
    return fn()


def load(cls, path, op):
    kw = {}
    if cls is Ptycho2DDataset:
        if op['cut'] is not None:
            kw['cut_zeros'] = op['cut']
        if not op['patterns']:
            kw['load_patterns'] = False
    if op['load'] == 'h5':
        with h5py.File(path, 'r') as f:
            ds = cls.from_cxi(f, **kw)
            assert f.id.valid
        return ds
    return cls.from_cxi(target(path, op['load']), **kw)


def run(sc, run):
    warnings.simplefilter('ignore')
    truths = [Truth(s) for s in sc['specs']]
    things = [x.make() for x in truths]
    folder = run.scratch()
    generations = 0
    run.nontrivial = True
    with run.sim({'wall0': 1.7e9}, trace=False), vfs.disk() as disk:
        for oi, op in enumerate(sc['ops']):
            where = 'operation %d %s' % (oi, op)
            path = os.path.join(folder, op['name'])
            cut = op['cut'] is not False
            if op['op'] == 'raw':
                truth = truths[op['pick'] % len(truths)]
                want, p = write_raw(path, truth, op['style'])
                p = np.where(np.isnan(p), 0, p) if p.dtype.kind == 'f' else p
                if p.dtype == np.float64:
                    p = p.astype(np.float32)
                want['patterns'] = np.maximum(p, 0) if cut else p
                ds = attempt(run, disk, op['fault'], lambda: load(
                    Ptycho2DDataset, path, op))
                d = [x for x in differences(ds, want, op['patterns'])]
                d = [x for x in d if not small(x, ds, want)]
                run.check(not d, 'other program\'s file', '%s; %s' % (
                    d[:4], where))
                run.tags.append('read from another program')
            elif op['op'] == 'read':
                # Reading a file must not change it
                if not os.path.exists(path):
                    continue
                before = open(path, 'rb').read()
                load(CDataset, path, op)
                run.check(open(path, 'rb').read() == before,
                          'file changed by reading', where)
                continue
            else:
                ds = things[op['pick'] % len(things)]
                cls = type(ds)
                want = expectation(ds, cut)
                if op['file'] == 'parts':
                    by_parts(path, ds, op['order'])
                elif op['file'] == 'h5':
                    from cdtools.tools.data import create_cxi
                    with create_cxi(path) as f:
                        ds.to_cxi(f)
                        run.check(f.id.valid, 'closed the file', where)
                else:
                    # A file which can't be opened may be tried again
                    attempt(run, disk, [f for f in op['fault']
                                        if f[0] == 'open'],
                            lambda: ds.to_cxi(target(path, op['file'])))
                with h5py.File(path, 'r') as f:
                    d = raw_problems(f, ds)
                run.check(not d, 'file content', '%s; %s' % (d[:4], where))
                loaded = attempt(run, disk, op['fault'],
                                 lambda: load(cls, path, op))
                d = differences(loaded, want, op['patterns'])
                run.check(not d, 'round trip', '%s; %s' % (d[:4], where))
                d = differences_of_source(ds, want)
                run.check(not d, 'source changed', '%s; %s' % (d, where))
                # The next program continues with what it has loaded
                if op['patterns']:
                    things.append(loaded)
                    generations += 1
                run.tags.append('saved by this one')
            run.note(where, sorted(disk.counts))
            if run.violations:
                return
    run.probe('generations', generations)
    for k, v in disk.fired.items():
        run.probe('fault:' + k, v)


def by_parts(path, ds, order):
    """A program which adds the parts of a file one by one, in any order"""
    parts = []
    if ds.entry_info is not None:
        parts.append(lambda f: data.add_entry_info(f, ds.entry_info))
    if ds.sample_info is not None:
        parts.append(lambda f: data.add_sample_info(f, ds.sample_info))
    if ds.wavelength is not None:
        parts.append(lambda f: data.add_source(f, ds.wavelength))
    g = ds.detector_geometry
    parts.append(lambda f: data.add_detector(
        f, g['distance'], g['basis'], corner=g.get('corner')))
    if ds.mask is not None:
        parts.append(lambda f: data.add_mask(f, ds.mask))
    if ds.qe_mask is not None:
        parts.append(lambda f: data.add_qe_mask(f, ds.qe_mask))
    if ds.background is not None:
        parts.append(lambda f: data.add_dark(f, ds.background))
    if isinstance(ds, Ptycho2DDataset):
        parts.append(lambda f: data.add_data(f, ds.patterns, axes=ds.axes))
        parts.append(lambda f: data.add_ptycho_translations(
            f, ds.translations))
        if ds.intensities is not None:
            parts.append(lambda f: data.add_shot_to_shot_info(
                f, ds.intensities, 'intensities'))
    random.Random(order).shuffle(parts)
    with data.create_cxi(path) as f:
        for add in parts:
            add(f)


def differences_of_source(ds, want):
    now = expectation(ds, True)
    return [k for k in ('trans', 'mask', 'qe', 'bg')
            if k in now and not same(now[k], want[k])]


def small(text, ds, want):
    """Single precision of derived quantities"""
    geometry = ds.detector_geometry or {}
    for k, v in (('distance', geometry.get('distance')),
                 ('wavelength', ds.wavelength)):
        if text.startswith(k + ':') and same(v, want[k], 1e-5):
            return True
    return text.startswith('basis:') and same(
        geometry.get('basis'), want['basis'], 1e-5)
