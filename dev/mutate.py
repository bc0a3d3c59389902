"""mutation campaign: mutate.py OUT.json FILE[:fn-substring]... ; development only"""
import sys
import os
import re
import json
import random
import subprocess
import shutil
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
sys.path.insert(0, __import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))), 'sa'))
SWAPS = [(r'<=', '<'), (r'>=', '>'), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'), (r' < ', ' <= '), (r' > ', ' >= '), (r' > ', ' < '), (r' < ', ' > '),
         (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r' / ', ' * '), (r'\+= ', '= '), (r'!(?=[a-z(])', ''),
         (r'(?<![\w.])0(?![\w.])', '1'), (r'(?<![\w.])1(?![\w.])', '0'), (r'(?<![\w.])1(?![\w.])', '2'), (r'(?<![\w.])-1(?![\w.])', '1'),
         (r'\bprimes\b', 'subs'), (r'\bsubs\b', 'primes'), (r'\btrue_parameter\b', 'false_parameter'), (r'\bfalse_parameter\b', 'true_parameter'),
         (r'\.first\b', '.second'), (r'\.second\b', '.first'), (r'->first\b', '->second'), (r'->second\b', '->first'),
         (r'\bfirst\b', 'second'), (r'\bsecond\b', 'first'), (r'_left\b', '_right'), (r'_right\b', '_left'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
         (r'\bbreak;', ';'), (r'\bcontinue;', ';'), (r'\brbegin\b', 'begin'), (r'\bLITERAL_NODE_TYPE\b', 'TOP_NODE_TYPE'), (r'\bTOP_NODE_TYPE\b', 'DECISION_NODE_TYPE'),
         (r'\bDECISION_NODE_TYPE\b', 'TOP_NODE_TYPE'), (r'if \((?!$)', 'if (true || '), (r'if \((?!$)', 'if (false && '), (r'\bi\]', '0]'), (r'\+\+i\b', 'i += 2'),
         (r'\bprime\b', 'sub'), (r'\bsub\b', 'prime'), (r'\bflag_index\b', '0'), (r'\+1\b', '-1'), (r'\belse if\b', 'if'), (r'size\(\)', 'size() - 1'), (r'[ij] = 0', 'i = 1'), (r'\.begin\(\)', '.begin() + 1'),
         (r'PsddParameter::CreateFromDecimal\(1\)', 'PsddParameter::CreateFromDecimal(0)'), (r'PsddParameter::CreateFromDecimal\(0\)', 'PsddParameter::CreateFromDecimal(1)'), (r'\bstd::max\b', 'std::min')]


def mutants(path, fns):
    s = open(path).read()
    lines = s.split('\n')
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l) + 1)
    out = []
    for fn in fns:
        a = starts[fn.line - 1]
        b0 = s.index('{', a)
        d, i = 0, b0
        while True:
            ch = s[i]
            if ch == '{':
                d += 1
            elif ch == '}':
                d -= 1
                if d == 0:
                    break
            i += 1
        body = s[b0:i]
        for pat, new in SWAPS:
            for m in re.finditer(pat, body):
                ln = s.count('\n', 0, b0 + m.start()) + 1
                L = lines[ln - 1]
                if 'assert' in L or L.strip().startswith('//'):
                    continue
                o = b0 + m.start()
                out.append((fn.sig, ln, '%s -> %s' % (m.group(0), new), s[:o] + new + s[b0 + m.end():], L.strip()))
        # drop simple statements
        for m in re.finditer(r'(?<=[;{}])(\s*)([^;{}]+;)', body):
            st = m.group(2)
            if re.match(r'\s*(return|for|if|else|while|assert|case|default|break|continue)\b', st) or 'for (' in st:
                continue
            o = b0 + m.start(2)
            ln = s.count('\n', 0, o) + 1
            out.append((fn.sig, ln, 'drop', s[:o] + ';' + s[b0 + m.end(2):], st.replace('\n', ' ')))
    return out


def main():
    from props import repo, OBS, make, run, findrepo
    import multiprocessing as mp
    P = repo()
    outf = sys.argv[1]
    mapf = '/tmp/obsmap.json'
    if not os.path.exists(mapf):
        m = {}
        for n in OBS:
            try:
                r = run(make(n))
                m[n] = sorted(set(r['b'].inlined) | {r['fn'].sig}) if hasattr(r['b'], 'inlined') else [r['fn'].sig]
            except Exception as e:
                m[n] = [findrepo(OBS[n][0]).sig]
        json.dump(m, open(mapf, 'w'))
    obsmap = json.load(open(mapf))
    rev = {}
    for n, l in obsmap.items():
        for x in l:
            rev.setdefault(x, []).append(n)
    RUL = ['rule:' + x for x in os.environ.get('RULES', '').split(',') if x]
    if RUL:
        for a in sys.argv[2:]:
            for s_, fs_ in P.bysig.items():
                if fs_[0].file == os.path.join('/repo', a.partition(':')[0]):
                    rev.setdefault(s_, []).extend(RUL)
    todo = []
    rnd = random.Random(int(os.environ.get('SEED', '1')))
    for arg in sys.argv[2:]:
        f, _, sub = arg.partition(':')
        path = os.path.join('/repo', f)
        fns = [fs[0] for s, fs in P.bysig.items() if fs[0].file == path and s in rev and (not sub or sub in s) and ('ctor' not in fs[0].kind or RUL)]
        for mu in mutants(path, fns):
            todo.append((f,) + mu)
    rnd.shuffle(todo)
    if os.environ.get('ONLY'):
        prev = {(r['file'], r['sig'], r['line'], r['what'], r['src']) for r in json.load(open(os.environ['ONLY'])) if r['v'] in ('UND', 'crash')}
        todo = [t for t in todo if (t[0], t[1], t[2], t[3], t[5]) in prev]
    lim = int(os.environ.get('LIM', '0'))
    if lim:
        todo = todo[:lim]
    print(len(todo), 'mutants')
    q = Queue()
    for i in range(8):
        w = '/tmp/w/mut%d_%d' % (os.getpid(), i)
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        subprocess.run('cp -a /repo/src /repo/include %s/; cp -a /repo/*.cpp /repo/*.h %s/ 2>/dev/null' % (w, w), shell=True)
        q.put(w)

    def job(t):
        f, sig, ln, what, text, line = t
        w = q.get()
        try:
            p = os.path.join(w, f)
            keep = open(p).read()
            open(p, 'w').write(text)
            try:
                r = subprocess.run(['python3-vt', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'runobs.py')] + rev[sig], capture_output=True, text=True, env=dict(os.environ, PSDD_REPO=w))
                try:
                    res = json.loads(r.stdout)
                except ValueError:
                    res = dict(crash=r.stderr[-300:])
            finally:
                open(p, 'w').write(keep)
            return dict(file=f, sig=sig, line=ln, what=what, src=line, res=res)
        finally:
            q.put(w)
    out = []
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(job, todo):
            out.append(r)
            if len(out) % 50 == 0:
                json.dump(out, open(outf, 'w'))
    json.dump(out, open(outf, 'w'))
    cnt = {}
    for r in out:
        r['v'] = verdict(r)
        cnt[r['v']] = cnt.get(r['v'], 0) + 1
    print(cnt)
    json.dump(out, open(outf, 'w'))
    for i in range(8):
        shutil.rmtree('/tmp/w/mut%d_%d' % (os.getpid(), i))


def verdict(r):
    res = r['res']
    if 'nocompile' in res:
        return 'nocompile'
    if 'crash' in res:
        return 'crash'
    vs = [v[0] for v in res.values()]
    if 'DEF' in vs:
        return 'DEF'
    if all(v == 'SAME' for v in vs):
        return 'SAME'
    return 'UND'


if __name__ == '__main__':
    main()
