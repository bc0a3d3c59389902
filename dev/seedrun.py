"""development helper: every check named by a planted bug (or all: -a) against a copy with the bug applied"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if a != '-a'] or sorted(os.listdir(V + '/seeded'))


def do(i):
    w = '/tmp/w/sr_' + i
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', w])
    shutil.rmtree(w + '/_build', ignore_errors=True)
    p = subprocess.run(['git', '-C', w, 'apply', '%s/seeded/%s/patch.diff' % (V, i)])
    if p.returncode:
        return i, 'PATCH'
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))['property']
    ps = [m]
    if '-a' in sys.argv:
        ps = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
    out = []
    for c in ps:
        r = subprocess.run(['./check.py', c], cwd=V, env=dict(os.environ, PSDD_REPO=w), capture_output=True, text=True)
        if r.returncode or c == m:
            out.append('%s=%d' % (c, r.returncode))
    shutil.rmtree(w, ignore_errors=True)
    return i, m + ': ' + ' '.join(out)


os.makedirs('/tmp/w', exist_ok=True)
with ThreadPoolExecutor(6) as ex:
    for i, o in ex.map(do, ids):
        print(i, o, flush=True)
