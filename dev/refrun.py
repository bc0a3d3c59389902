"""development helper: behaviour-preserving edits; no obligation may come out different.
refrun.py FILE.py [id...]   FILE.py defines REFS = {id: [(file, old, new), ...]}"""
import sys
import os
import json
import shutil
import subprocess
import importlib.util
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + '/sa')


def main():
    sp = importlib.util.spec_from_file_location('refs', sys.argv[1])
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    want = sys.argv[2:]
    import props
    allobs = list(props.OBS)

    def do(rid):
        w = '/tmp/w/rf_' + rid
        shutil.rmtree(w, ignore_errors=True)
        subprocess.run(['cp', '-a', '/repo', w])
        shutil.rmtree(w + '/_build', ignore_errors=True)
        try:
            files = set()
            for f, old, new in m.REFS[rid]:
                p = w + '/' + f
                s = open(p).read()
                if s.count(old) != 1:
                    return rid, 'EDIT count %d: %s' % (s.count(old), old[:60])
                open(p, 'w').write(s.replace(old, new))
                files.add(f)
            c = subprocess.run('g++ -fsyntax-only -std=gnu++17 -w -I%s/include -I%s/include/sdd %s' % (w, w, ' '.join(w + '/' + f for f in files if f.endswith(('.cpp', '.c')))), shell=True, capture_output=True, text=True)
            if c.returncode:
                return rid, 'NOCOMPILE ' + c.stderr[:600]
            fs = set()
            for f in files:
                if 'node' in f:
                    fs |= {'node', 'manager'}
                elif 'manager' in f:
                    fs.add('manager')
                elif 'param' in f:
                    fs |= {'param'}
                else:
                    fs |= {os.path.basename(f).split('.')[0]}
            names = [n for n in allobs if props.OBS[n][2] in fs or any(x in n for x in fs)] or allobs
            if getattr(m, 'ALL', False):
                names = allobs
            import rules
            names = names + ['rule:' + x for x in rules.RULES]
            r = subprocess.run(['python3-vt', HERE + '/dev/runobs.py'] + names, capture_output=True, text=True, env=dict(os.environ, PSDD_REPO=w))
            try:
                d = json.loads(r.stdout.strip().split('\n')[-1])
            except Exception:
                return rid, 'CRASH ' + r.stderr[-500:]
            if 'nocompile' in d:
                return rid, 'NOCOMPILE ' + d['nocompile']
            bad = []
            for n, v in d.items():
                if v[0] != 'SAME':
                    bad.append('  %s %s' % (v[0], n))
                    for i in v[1]:
                        bad.append('      %s %s PATH %s\n        REF %s\n        IMP %s' % (i[1], i[0], i[2], i[3], i[4]))
            return rid, '\n'.join(bad)
        finally:
            shutil.rmtree(w, ignore_errors=True)
    with ThreadPoolExecutor(6) as ex:
        for rid, out in ex.map(do, [r for r in m.REFS if not want or r in want]):
            print('== %s %s' % (rid, 'ok' if not out else '\n' + out), flush=True)


main()
