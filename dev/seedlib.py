"""development helper: makes and verifies a planted bug under /verif/seeded"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

DEMO = '''#!/bin/bash
# builds the demonstration against the library built from /repo and runs it
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
g++ -g -w -no-pie -std=gnu++17 -D_GLIBCXX_USE_CXX11_ABI=0 -I"$PWD/include" "$here/demo.cpp" "$PWD/_build/libpsdd.a" "$PWD/lib/linux/libsdd.a" -lgmp -o "$t/demo" %s || exit 3
cd "$t" && timeout 120 ./demo
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def seed(sid, prop, edits, demo, needs, breaks, extra='', checks=None, keep=True):
    d = '/verif/seeded/' + sid
    os.makedirs(d, exist_ok=True)
    with open(d + '/demo.cpp', 'w') as f:
        f.write(demo)
    with open(d + '/demo.sh', 'w') as f:
        f.write(DEMO % extra)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    w = tempfile.mkdtemp(prefix='seed_')
    r = w + '/repo'
    try:
        sh('cp -a /repo %s' % r)
        for f, old, new in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git -C %s diff' % r).stdout
        assert diff
        open(d + '/patch.diff', 'w').write(diff)
        # the clean tree
        a = sh('cd /repo && bash %s/demo.sh' % d)
        # the changed one, in its own place
        sh('rm -rf %s/_build' % r)
        b = sh("sed 's#/repo#%s#g' /opt/vp/build.sh > %s/b.sh && bash %s/b.sh" % (r, w, w))
        if b.returncode:
            print(sid, 'DOES NOT BUILD', b.stdout[-1500:], b.stderr[-500:])
            return False
        t = sh('cd %s && ./_build/psdd_test 2>&1 | tail -3' % r)
        e = sh('cd %s && bash %s/demo.sh' % (r, d))
        ok = a.returncode == 0 and e.returncode not in (0, 3) and 'PASSED' in t.stdout and 'FAILED' not in t.stdout
        print(sid, 'demo clean', a.returncode, 'changed', e.returncode, 'tests', t.stdout.strip().split('\n')[-1], 'OK' if ok else 'BAD')
        if not ok:
            print(a.stdout[-600:], a.stderr[-600:], '----', e.stdout[-600:], e.stderr[-600:])
        env = dict(os.environ, PSDD_REPO=r)
        for c in checks or [prop]:
            k = sh('cd /verif && ./check.py %s' % c, env=env)
            print('   check', c, 'rc', k.returncode, [l for l in k.stdout.split('\n') if l][-3:] if k.returncode != 1 else k.stdout.split('\n')[0])
        return ok
    finally:
        shutil.rmtree(w)
