"""Searches for violations of one property, minimises what it finds, and writes
the evidence.

    python -m dst.runner quick P01
    python -m dst.runner thorough P01
    python -m dst.runner replay replays/P01-xxxx.json
    python -m dst.runner selftest [P01 ...]

This process never imports the code under test. The runs happen in workers.
"""
import hashlib
import importlib.util
import json
import os
import random
import select
import signal
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = os.environ.get('DST_PYTHON', '/opt/venv/bin/python')
JOB_TIMEOUT = 150.

sys.path.insert(0, VERIF)
from dst.registry import PROPS  # noqa: E402


class HarnessError(Exception):
    pass


class Worker:
    def __init__(self, prop, hashseed='0'):
        env = dict(os.environ)
        env.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1',
                   OMP_NUM_THREADS='1', MKL_NUM_THREADS='1',
                   OPENBLAS_NUM_THREADS='1', MKL_DISABLE_FAST_MM='1',
                   MPLBACKEND='Agg',
                   CUDA_VISIBLE_DEVICES='', PYTHONUTF8='1')
        env.pop('PYTHONPATH', None)
        self.prop = prop
        self.p = subprocess.Popen(
            [PY, '-m', 'dst.worker', prop], cwd=VERIF, env=env,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=False,
            start_new_session=True)
        self.buf = b''
        self.job = None
        self.deadline = time.time() + 300
        self.ready = False

    def send(self, job, timeout=JOB_TIMEOUT):
        self.job = job
        self.deadline = time.time() + timeout
        try:
            self.p.stdin.write(json.dumps(job).encode() + b'\n')
            self.p.stdin.flush()
        except BrokenPipeError:
            pass       # seen as the end of its output

    def lines(self):
        """Returns the messages which have arrived, None once it has died"""
        data = os.read(self.p.stdout.fileno(), 1 << 20)
        if not data:
            return None
        self.buf += data
        *lines, self.buf = self.buf.split(b'\n')
        return [json.loads(line) for line in lines]

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()
        self.p.stdout.close()
        try:
            self.p.stdin.close()
        except BrokenPipeError:
            pass


class Pool:
    """Runs jobs in workers. A job whose worker dies or does not answer is
    tried once more in a fresh one."""

    def __init__(self, prop, n, hashseeds=('0',)):
        self.prop = prop
        self.hashseeds = hashseeds
        self.workers = [Worker(prop, hashseeds[i % len(hashseeds)])
                        for i in range(n)]

    def run(self, jobs, on_result, stop=lambda: False):
        """jobs: an iterator over dicts"""
        jobs = iter(jobs)
        retry = []
        exhausted = False

        def give(w):
            nonlocal exhausted
            if retry:
                w.send(retry.pop(0), 2 * JOB_TIMEOUT)
                return
            if exhausted or stop():
                return
            job = next(jobs, None)
            if job is None:
                exhausted = True
            else:
                w.send(dict(job))

        def lost(w, why):
            job = w.job
            w.kill()
            i = self.workers.index(w)
            self.workers[i] = Worker(self.prop, self.hashseeds[
                i % len(self.hashseeds)])
            if job is None:
                raise HarnessError('a worker could not start: ' + why)
            if job.get('tries'):
                on_result(job, {'lost': why})
            else:
                job['tries'] = 1
                retry.append(job)

        for w in self.workers:
            if w.ready and w.job is None:
                give(w)
        while True:
            busy = [w for w in self.workers if w.job is not None
                    or not w.ready]
            if not any(w.job is not None for w in self.workers) \
                    and not retry and (exhausted or stop()):
                return
            now = time.time()
            wait = min(w.deadline for w in busy) - now
            got, _, _ = select.select(
                [w.p.stdout for w in busy], [], [], min(max(wait, .01), 5.))
            for w in list(busy):
                if w.p.stdout in got:
                    msgs = w.lines()
                    if msgs is None:
                        lost(w, 'died (%s)' % w.p.wait())
                        continue
                    for msg in msgs:
                        if 'ready' in msg:
                            w.ready = True
                        elif 'id' not in msg:
                            raise HarnessError(msg['error'])
                        else:
                            job, w.job = w.job, None
                            on_result(job, msg)
                    if w.ready and w.job is None:
                        give(w)
                elif time.time() > w.deadline:
                    lost(w, 'no answer')

    def close(self):
        for w in self.workers:
            w.kill()


# ---------------------------------------------------------------- findings
def known_findings(prop):
    """[(signature, text)] of the findings recorded for this property"""
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                sig, text = rest.split(' ', 1)
                out.append((sig.split('=', 1)[1], text))
    return out


def signature(v):
    return v['kind'].replace(' ', '_')


# ------------------------------------------------------------ minimisation
def get_path(obj, path):
    for p in path.split('.'):
        if not isinstance(obj, dict) or p not in obj:
            return None
        obj = obj[p]
    return obj


def set_path(obj, path, value):
    obj = json.loads(json.dumps(obj))
    cur = obj
    *head, last = path.split('.')
    for p in head:
        cur = cur[p]
    cur[last] = value
    return obj


class Minimiser:
    def __init__(self, pool, kind, budget):
        self.pool, self.kind = pool, kind
        self.end = time.time() + budget
        self.tried = 0
        self.seen = set()

    def fails(self, candidates):
        """The first of the candidates which still fails the same way"""
        todo = []
        for c in candidates:
            key = json.dumps(c, sort_keys=True)
            if key not in self.seen:
                self.seen.add(key)
                todo.append(c)
        results = {}

        def on_result(job, msg):
            self.tried += 1
            res = msg.get('result')
            results[job['id']] = res is not None and any(
                v['kind'] == self.kind for v in res['violations'])

        def found():
            return any(results.values()) or time.time() > self.end
        self.pool.run(({'id': i, 'scenario': c} for i, c in enumerate(todo)),
                      on_result, found)
        ok = [i for i, r in sorted(results.items()) if r]
        return todo[ok[0]] if ok else None

    def minimise(self, scenario, module):
        progress = True
        while progress and time.time() < self.end:
            progress = False
            for path in module.SHRINK:
                items = get_path(scenario, path)
                if not isinstance(items, list) or not items:
                    continue
                chunk = len(items)
                while chunk >= 1 and time.time() < self.end:
                    items = get_path(scenario, path)
                    cands = [set_path(scenario, path,
                                      items[:i] + items[i + chunk:])
                             for i in range(0, len(items), chunk)]
                    got = self.fails(cands)
                    if got is not None:
                        scenario, progress = got, True
                        chunk = min(chunk, max(len(get_path(
                            scenario, path)), 1))
                        if not get_path(scenario, path):
                            break
                    else:
                        chunk //= 2
            got = self.fails(module.simplify(scenario))
            while got is not None and time.time() < self.end:
                scenario, progress = got, True
                got = self.fails(module.simplify(scenario))
        return scenario


# ------------------------------------------------------------------- search
def tree_id():
    """Identifies the code which was checked"""
    h = hashlib.sha256()
    root = os.path.join(os.environ.get('DST_REPO', '/repo'), 'src')
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            if f.endswith('.py'):
                h.update(f.encode())
                h.update(open(os.path.join(d, f), 'rb').read())
    return h.hexdigest()[:12]


def search(tier, prop):
    t0 = time.time()
    info = PROPS[prop]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    n = info[tier]
    if 'DST_RUNS' in os.environ:
        n = int(os.environ['DST_RUNS'])
    soft = {'quick': 400., 'thorough': 7200.}[tier]
    nworkers = int(os.environ.get('DST_WORKERS', '8'))
    print('seed %d, %d runs of %s' % (seed, n, prop), flush=True)
    known = dict(known_findings(prop))
    agg = {'runs': 0, 'steps': 0, 'switches': 0, 'sim_seconds': 0.,
           'fired': {}, 'probes': {}, 'tags': {}}
    interleavings, digests, shapes = set(), set(), set()
    samples, found, errors, lost = [], [], [], []
    known_seen = {}
    by_seed = {}

    def on_result(job, msg):
        if 'lost' in msg:
            lost.append((job, msg['lost']))
            return
        if 'error' in msg:
            errors.append((job, msg['error']))
            return
        res = msg['result']
        agg['runs'] += 1
        for k in ('steps', 'switches', 'sim_seconds'):
            agg[k] += res[k]
        for k in ('fired', 'probes'):
            for name, c in res[k].items():
                agg[k][name] = agg[k].get(name, 0) + c
        for tag in res['tags']:
            agg['tags'][tag] = agg['tags'].get(tag, 0) + 1
        interleavings.add(res['interleaving'])
        digests.add(res['digest'])
        by_seed[job['id']] = res['digest']
        if res['nontrivial']:
            shapes.add(res['digest'])
        if len(samples) < 3 and (res['nontrivial'] or job['id'] > 50):
            s = json.dumps(res['scenario'])
            samples.append({'run': job['id'], 'digest': res['digest'],
                            'scenario': res['scenario'] if len(s) < 3000
                            else s[:3000] + '...',
                            'fired': res['fired']})
        for v in res['violations']:
            if signature(v) in known:
                known_seen[signature(v)] = known_seen.get(signature(v), 0) + 1
            else:
                found.append((job, v, res))

    spec = importlib.util.spec_from_file_location(
        'corpus', os.path.join(HERE, 'corpus.py'))
    corpus = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(corpus)
    directed = corpus.CORPUS.get(prop, [])

    def jobs():
        for i, sc in enumerate(directed):
            yield {'id': -1 - i, 'scenario': sc}
        for i in range(n):
            yield {'id': i, 'seed': '%d/%d' % (seed, i)}

    def stop():
        return bool(found) or len(errors) > 20 or len(lost) > 3 \
            or time.time() - t0 > soft

    pool = Pool(prop, nworkers)
    status = 0
    recheck = {'runs': 0, 'mismatches': 0}
    try:
        pool.run(jobs(), on_result, stop)
        search_s = time.time() - t0
        if errors and not found:
            raise HarnessError('in run %r:\n%s' % (
                errors[0][0], errors[0][1]))
        if lost and not found:
            job, why = lost[0]
            if why == 'no answer':
                # the same run got stuck twice, in two processes
                found.append((job, {'kind': 'no_progress', 'detail':
                                    'stuck in a computation'}, None))
            else:
                raise HarnessError('workers %s in run %r' % (why, job))
        if found:
            found.sort(key=lambda f: f[0]['id'])
            status = report(prop, pool, found, tier)
        elif by_seed:
            # the same seeds in other processes, with another hash seed
            again = [i for i in by_seed if i >= 0]
            again = again[:: max(1, len(again) // 12)][:12]

            def compare(job, msg):
                if 'result' in msg:
                    recheck['runs'] += 1
                    if msg['result']['digest'] != by_seed[job['id']]:
                        recheck['mismatches'] += 1
            pool2 = Pool(prop, 3, ('17', '4', '99'))
            try:
                pool2.run(({'id': i, 'seed': '%d/%d' % (seed, i)}
                           for i in again), compare)
            finally:
                pool2.close()
    except HarnessError as e:
        print('HARNESS ERROR (not a verdict): %s' % e, flush=True)
        status = 2
        search_s = time.time() - t0
    finally:
        pool.close()
    wall = time.time() - t0
    for sig, text in known.items():
        print('KNOWN-FINDING: property=%s %s' % (prop, text))
    if status != 2:
        evidence = {
            'property': prop, 'tier': tier, 'seed': seed,
            'level': 'exploration',
            'coverage': {
                'evaluations': agg['runs'],
                'distinct_nontrivial': len(shapes),
                'rule': info['rule'],
                'samples': samples,
                'directed_scenarios': len(directed),
                'runs_planned': n + len(directed),
                'runs_per_hour': round(agg['runs'] / max(search_s, .01)
                                       * 3600),
                'seeds_per_hour': round(agg['runs'] / max(search_s, .01)
                                        * 3600),
                'simulated_seconds': round(agg['sim_seconds'], 3),
                'scheduling_points': agg['steps'],
                'context_switches': agg['switches'],
                'distinct_interleavings': len(interleavings),
                'interleaving_measure':
                    'hash of the sequence of (from, to, source line) of all '
                    'context switches of a run',
                'distinct_event_logs': len(digests),
                'faults_fired': dict(sorted(agg['fired'].items())),
                'probes': dict(sorted(agg['probes'].items())),
                'configurations': dict(sorted(agg['tags'].items())),
                'real_code': info['real'],
                'stubs': info['stubs'],
                'determinism_recheck': recheck,
                'known_findings_seen': known_seen,
                'tree': tree_id(),
            },
            'assumptions': info['assumptions'],
            'wall_s': round(wall, 2),
            'violations': len(found),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1)
    print('%s %s: %d runs (%d distinct) in %.1f s, faults %s, recheck %s -> %s'
          % (prop, tier, agg['runs'], len(shapes), wall,
             dict(sorted(agg['fired'].items())), recheck,
             {0: 'held', 1: 'violated', 2: 'error'}[status]), flush=True)
    if os.environ.get('DST_VERBOSE'):
        print(json.dumps(agg, indent=1))
    return status


class Shrinkable:
    def __init__(self, prop):
        self.SHRINK = PROPS[prop].get('shrink', [])
        self._simplify = PROPS[prop].get('simplify', {})

    def simplify(self, sc):
        """Replaces values by simpler ones, one at a time"""
        for path, values in self._simplify.items():
            cur = get_path(sc, path)
            if cur is None:
                continue
            for v in values:
                if v == cur:
                    break
                yield set_path(sc, path, v)


def report(prop, pool, found, tier):
    """Confirms, minimises and writes down what was found"""
    for job, v, res in found[:5]:
        kind = v['kind']
        print('found %s in run %s: %s' % (kind, job['id'], v['detail'][:800]),
              flush=True)
        if res is None:
            return write_replay(prop, job, kind, v, None, None, 0)
        scenario = res['scenario']
        # must happen again in other processes
        mini = Minimiser(pool, kind, 60 if tier == 'quick' else 600)
        again = None
        for _ in range(3):
            mini.seen.clear()
            again = mini.fails([scenario])
            if again is not None:
                break
        if again is None:
            print('could not be reproduced')
            continue
        scenario = mini.minimise(scenario, Shrinkable(prop))
        final = fresh_run(prop, scenario)
        if not any(w['kind'] == kind for w in final['violations']):
            scenario = res['scenario']
            final = fresh_run(prop, scenario)
        w = [w for w in final['violations'] if w['kind'] == kind]
        return write_replay(prop, job, kind, w[0] if w else v, scenario,
                            final['digest'], mini.tried)
    raise HarnessError('violations which do not reproduce: %s'
                       % [f[1]['kind'] for f in found])


def fresh_run(prop, scenario):
    out = []
    pool = Pool(prop, 1, ('31',))
    try:
        pool.run([{'id': 0, 'scenario': scenario}],
                 lambda job, msg: out.append(msg))
    finally:
        pool.close()
    if not out or 'result' not in out[0]:
        raise HarnessError('replay failed: %s' % out)
    return out[0]['result']


def write_replay(prop, job, kind, v, scenario, digest, tried):
    body = {'property': prop, 'violation': kind, 'detail': v['detail'],
            'found_in_run': job['id'], 'seed': job.get('seed'),
            'scenario': scenario, 'job': job, 'digest': digest,
            'minimisation_runs': tried}
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    name = '%s-%s.json' % (prop, hashlib.sha256(json.dumps(
        body, sort_keys=True).encode()).hexdigest()[:10])
    path = os.path.join(VERIF, 'replays', name)
    with open(path, 'w') as f:
        json.dump(body, f, indent=1)
    print('seed %s, minimised in %d runs: %s' % (job.get('seed'), tried,
                                                 json.dumps(scenario)[:1500]))
    print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
    return 1


def replay(path):
    body = json.load(open(path))
    prop = body['property']
    if body['scenario'] is None:
        pool = Pool(prop, 1)
        out = []
        try:
            pool.run([body['job']], lambda j, m: out.append(m))
        finally:
            pool.close()
        bad = bool(out) and 'lost' in out[0]
        print('stuck again' if bad else 'did not get stuck')
    else:
        res = fresh_run(prop, body['scenario'])
        bad = any(v['kind'] == body['violation'] for v in res['violations'])
        for v in res['violations']:
            print('%s: %s' % (v['kind'], v['detail']))
        print('event log %s (recorded: %s)' % (res['digest'], body['digest']))
    if bad:
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('the violation did not occur')
    return 0


def selftest(props, n=60):
    """Determinism: the same seeds in many processes, with different numbers
    of workers and different hash seeds, must leave identical event logs"""
    bad = 0
    for prop in props:
        logs = []
        for workers, hashseeds in ((8, ('0',)), (3, ('1', '2', '3')),
                                   (5, ('77',))):
            got = {}

            def on_result(job, msg):
                if 'result' in msg:
                    got[job['id']] = msg['result']['digest']
                else:
                    print(prop, job, msg)
            pool = Pool(prop, workers, hashseeds)
            order = list(range(n))
            random.Random(workers).shuffle(order)
            try:
                pool.run(({'id': i, 'seed': '5/%d' % i} for i in order),
                         on_result)
            finally:
                pool.close()
            logs.append(got)
        diff = [i for i in range(n)
                if len({g.get(i) for g in logs}) != 1]
        bad += len(diff)
        print('%s: %d seeds x %d processes layouts, %d differ %s'
              % (prop, n, len(logs), len(diff), diff[:10]), flush=True)
    return 1 if bad else 0


def main():
    cmd = sys.argv[1]
    if cmd in ('quick', 'thorough'):
        return search(cmd, sys.argv[2])
    if cmd == 'replay':
        return replay(sys.argv[2])
    if cmd == 'selftest':
        n = int(os.environ.get('DST_RUNS', '60'))
        return selftest(sys.argv[2:] or sorted(PROPS), n)
    raise SystemExit('unknown command')


if __name__ == '__main__':
    # Also for what runs leave which are killed
    scratch = os.environ['TMPDIR'] = tempfile.mkdtemp(prefix='dst-')
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)
