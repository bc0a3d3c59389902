#!/usr/bin/env python3-vt
"""check.py <property>: decides one property from /repo's current source."""
import os
import re
import sys
import time
import json
import signal
import traceback
import multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sa'))
sys.setrecursionlimit(20000)
EVID = os.path.join(HERE, 'evidence')


class TO(BaseException):
    pass


def one(job):
    """one obligation in its own process -> dict"""
    kind, name, limit = job
    from props import run, make, Broken, SAME, UND, DEF, show, showpath
    import ir

    def onalarm(*a):
        raise TO()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(limit)
    t0 = time.time()
    import diff
    diff.PEELLEFT[0] = limit * 0.4
    diff.PEEL = 8 if limit <= 100 else 30
    try:
        r = run(make(name), limit * 0.8)
        signal.alarm(0)
        f = r['fn']
        items = []
        for i in r['items']:
            d = dict(what=i[0], verdict=['same', 'undecided', 'different'][i[1]])
            if i[1] != SAME:
                d['when'] = showpath(i[2])
                d['reference'] = show(i[3])[:700] if i[3] is not None else None
                d['code'] = show(i[4])[:700] if i[4] is not None else None
            items.append(d)
        return dict(name=name, fn=f.sig, where=f.where(), verdict=['same', 'undecided', 'different'][r['verdict']], items=items, inlined=r.get('inlined', []),
                    s=round(time.time() - t0, 2), terms=r.get('terms', 0))
    except TO:
        return dict(name=name, verdict='undecided', note='time limit', items=[], s=limit)
    except Broken as e:
        return dict(name=name, verdict='broken', note=str(e), items=[], s=0)
    except ir.ToolError as e:
        return dict(name=name, verdict='broken', note=str(e), items=[], s=0)
    except (Exception, RecursionError) as e:
        return dict(name=name, verdict='undecided', note='analysis stopped: ' + traceback.format_exc(limit=-3), items=[], s=round(time.time() - t0, 2))


def onerule(job):
    """one structural rule in its own process"""
    name, limit = job
    import props
    import rules

    def onalarm(*a):
        raise TO()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(limit)
    R = rules.RULES[name]
    none = dict(name=name, rule=R.__doc__, instances=0, findings=[])
    try:
        r = R(props.repo())
        r['name'] = name
        return r
    except TO:
        return dict(none, undecided=['time limit'])
    except rules.Vanished as e:
        return dict(none, vanished=str(e))
    except (Exception, RecursionError):
        return dict(none, undecided=['analysis stopped: ' + traceback.format_exc(limit=-3)])
    finally:
        signal.alarm(0)


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    import catalog
    import ir
    import props
    import rules
    entry = [e for e in catalog.CAT if e['id'] == pid]
    if not entry:
        print('unknown property', pid)
        return 2
    entry = entry[0]
    try:
        P = props.repo()
    except ir.ToolError as e:
        print('ERROR:', e)
        return 2
    names = []
    for g in entry['groups']:
        for n in props.GROUPS[g]:
            if n not in names:
                names.append(n)
    broken = []
    for s in sorted({props.OBS[n][2] for n in names}):
        try:
            props.spec(s)
        except ir.ToolError as e:
            broken.append('reference %s does not fit the current headers: %s' % (s, str(e)[-400:]))
    limit = 100 if tier == 'quick' else 250
    res = []
    if not broken:
        order = sorted(names)
        with mp.Pool(min(8, max(1, len(order))), maxtasksperchild=1) as pool:
            for r in pool.imap_unordered(one, [('ob', n, limit) for n in order], chunksize=1):
                res.append(r)
    res.sort(key=lambda r: names.index(r['name']))
    findings = []
    for r in res:
        if r['verdict'] == 'broken':
            if props.OBS[r['name']][4]:
                broken.append(r['note'])
            else:
                r['verdict'] = 'undecided'
        if r['verdict'] == 'different':
            for i in r['items']:
                if i['verdict'] == 'different' and (not entry['items'] or re.search(entry['items'], i['what'])):
                    findings.append(dict(key='%s:%s' % (r['name'], i['what']), where='%s %s' % (r['where'], r['fn']),
                                         msg='%s of %s differs from the reference %s' % (i['what'], r['fn'].split('(')[0], r['name']),
                                         detail=i))
    rulestats = []
    rund = []
    if entry['rules']:
        with mp.Pool(min(8, len(entry['rules'])), maxtasksperchild=1) as pool:
            for rr in pool.imap(onerule, [(rn, limit) for rn in entry['rules']], chunksize=1):
                if rr.get('vanished'):
                    broken.append('rule %s: %s' % (rr['name'], rr['vanished']))
                    continue
                rulestats.append(dict(rule=rr['name'], what=rr['rule'], instances=rr['instances'], sites=rr.get('sites', [])[:200], findings=len(rr['findings']),
                                      undecided=rr.get('undecided', [])))
                rund += ['%s: %s' % (rr['name'], u) for u in rr.get('undecided', [])]
                findings += rr['findings']
    known = load_known()
    new, old = [], []
    seen = set()
    for f in findings:
        if f['key'] in seen:
            continue
        seen.add(f['key'])
        (old if (pid, f['key']) in known else new).append(f)
    for f in old:
        print('KNOWN-FINDING: property=%s %s: %s' % (pid, f['key'], known[(pid, f['key'])]))
    und = [r for r in res if r['verdict'] == 'undecided']
    for r in und:
        print('UNDECIDED: %s %s' % (r['name'], (r.get('note') or '; '.join(i['what'] for i in r['items'] if i['verdict'] != 'same'))[:300]))
    for u in rund:
        print('UNDECIDED:', u[:300])
    for b in broken:
        print('ERROR:', b)
    os.makedirs(EVID, exist_ok=True)
    rp = os.path.join(EVID, pid + '.replay.txt')
    if new:
        with open(rp, 'w') as f:
            f.write('property %s: %s\n%s\n\nRe-run: VERIF_TIER=%s python3-vt /verif/check.py %s\n\n' % (pid, entry['title'], entry['statement'], tier, pid))
            for x in new:
                f.write('%s\n  %s\n  key: %s\n' % (x['where'], x['msg'], x['key']))
                d = x.get('detail')
                if isinstance(d, dict):
                    f.write('  on the path: %s\n  expected: %s\n  code:     %s\n' % (d.get('when'), d.get('reference'), d.get('code')))
                elif d:
                    f.write('  %s\n' % d)
                f.write('\n')
    elif os.path.exists(rp):
        os.remove(rp)
    nob = sum(max(1, len(r['items'])) for r in res)
    ok = sum(1 for r in res for i in r['items'] if i['verdict'] == 'same')
    ev = dict(property=pid, tier=tier, seed=seed, level='other',
              coverage=dict(explanation='Static. %d functions of the current source were translated (clang AST), abstractly evaluated to value graphs and compared with the '
                            'reference definitions in /verif/spec: %d of %d observables identical, %d undecided. %d structural rules with %d instances in total.'
                            % (len(res), ok, nob, sum(1 for r in res for i in r['items'] if i['verdict'] == 'undecided') + sum(1 for r in und if not r['items']),
                               len(rulestats), sum(x['instances'] for x in rulestats)),
                            translation_units=len(P.tus), functions_in_program=len(P.bysig),
                            functions=[dict(function=r.get('fn'), where=r.get('where'), reference=r['name'], verdict=r['verdict'], observables=r['items'] if r['verdict'] != 'same' else [i['what'] for i in r['items']],
                                            note=r.get('note'), seconds=r['s']) for r in res],
                            observables=nob, identical=ok, rules=rulestats),
              assumptions=[catalog.NOTE], wall_s=round(time.time() - t0, 2), violations=len(new))
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for x in new:
        print('%s: %s' % (x['where'], x['msg']))
        d = x.get('detail')
        if isinstance(d, dict):
            print('   when %s\n   expected %s\n   code     %s' % (d.get('when'), (d.get('reference') or '')[:300], (d.get('code') or '')[:300]))
        elif d:
            print('   %s' % d)
    if new:
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if broken:
        return 2
    print('%s held: %d functions, %d/%d observables identical, %d rule instances, %.1f s' %
          (pid, len(res), ok, nob, sum(x['instances'] for x in rulestats), time.time() - t0))
    return 0


def load_known():
    """known: property=<id> <key> | <what fails>"""
    out = {}
    p = os.path.join(HERE, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) (.+?) \| (.*)', l)
            if m:
                out[(m.group(1), m.group(2))] = m.group(3).strip()
    return out


if __name__ == '__main__':
    sys.exit(main())
