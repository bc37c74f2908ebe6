"""Writes MANIFEST.json from properties.jsonl and dst/registry.py"""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from dst.registry import PROPS, NOT_APPLICABLE  # noqa: E402

props = [json.loads(line) for line in
         open(os.path.join(HERE, 'properties.jsonl')) if line.strip()]
ids = [p['id'] for p in props]
assert len(set(ids)) == len(ids)
checks = []
for p in props:
    pid = p['id']
    if pid in NOT_APPLICABLE:
        continue
    checks.append({
        'property': pid,
        'quick_cmd': './check.sh quick ' + pid,
        'thorough_cmd': './check.sh thorough ' + pid,
        'evidence_file': 'evidence/%s.json' % pid,
        'technique': 'deterministic simulation with fault injection: '
                     + PROPS[pid]['technique'],
        'level': 'exploration',
        'level_note': PROPS[pid]['level_note'],
    })
missing = set(PROPS) - set(ids)
assert not missing, missing
manifest = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'hooks': {
        'guard': 'none',
        'enable': 'No hooks were added to /repo: clocks, locks, threads, the '
                  'events of figures and files are replaced from outside, '
                  'before cdtools is imported (dst/boot.py, dst/vfs.py). The '
                  'checks import /repo/src directly, so nothing is built.',
        'source_commits': [],
    },
    'checks': checks,
    'not_applicable': [{'property': k, 'reason': v}
                       for k, v in NOT_APPLICABLE.items()],
    'notes': 'See DESIGN.md. Replay a violation with: '
             './check.sh replay replays/<file>.json',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(NOT_APPLICABLE), 'not applicable')
