#!/usr/bin/env python3
"""Applies planted bugs one at a time to /repo, runs their property's check and records the outcome in tools/caught.txt.
usage: rerun.py [id...]   (default: all; VERIF_SEED and VERIF_TIER as for check.py)"""
import json, os, subprocess, sys
REPO = os.environ.get('VF_REPO', '/repo')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = os.path.join(ROOT, 'tools', 'caught.txt')
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(ROOT, 'seeded')))
git = lambda *a: subprocess.run(('git', '-C', REPO) + a, check=True, capture_output=True, text=True).stdout
assert not git('status', '--short'), '/repo is not clean'
for i in ids:
    d = os.path.join(ROOT, 'seeded', i)
    p = json.load(open(d + '/meta.json'))['property']
    try:
        git('apply', d + '/patch.diff')
        r = subprocess.run([sys.executable, os.path.join(ROOT, 'check.py'), p], capture_output=True, text=True, env=dict(os.environ, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER=os.environ.get('VERIF_TIER', 'quick')))
    finally:
        git('checkout', '--', '.')
    ok = r.returncode == 1 and 'VIOLATION property=%s ' % p in r.stdout
    print('%-26s %s rc=%d %s' % (i, p, r.returncode, 'caught' if ok else 'MISSED ' + r.stderr[-300:]), flush=True)
    if r.returncode in (0, 1):
        known = dict((l.split()[0], l.split()[1:]) for l in open(C) if l.strip())
        known[i] = [p, 'caught' if ok else 'missed']
        with open(C, 'w') as f:
            f.writelines('%s %s\n' % (k, ' '.join(v)) for k, v in sorted(known.items()))
