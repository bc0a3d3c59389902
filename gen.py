#!/usr/bin/env python3-vt
"""writes properties.jsonl and MANIFEST.json from sa/catalog.py"""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sa'))
import catalog

checks, na = [], []
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for e in catalog.CAT:
        d = dict(id=e['id'], title=e['title'], statement=' '.join(e['statement'].split()),
                 quantifier=dict(over=e['over'], text=e['text']), why_tests_cant=e['why'],
                 anchors=dict(files=e['files'], mechanism=[dict(name=a, where=b) for a, b in e['mech']], observe_at=e['observe'], hook_needed=None))
        if e['state']:
            d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in e['state']]
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
        if e['na']:
            na.append(dict(property=e['id'], reason=e['na']))
        else:
            cmd = './check.py ' + e['id']
            checks.append(dict(property=e['id'], quick_cmd=cmd, thorough_cmd=cmd, technique=e['technique'], level='other', level_note=e['note'] or catalog.NOTE))
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na), f, indent=1)
    f.write('\n')


# the generated parts of DESIGN.md
import props
D = os.path.join(HERE, 'DESIGN.md')
t = open(D).read()


def part(t, name, body):
    a, z = '<!-- %s -->' % name, '<!-- end %s -->' % name
    i, j = t.index(a) + len(a), t.index(z)
    return t[:i] + '\n' + body + '\n' + t[j:]


b = []
for e in catalog.CAT:
    if e['na']:
        continue
    own = props.GROUPS[e['groups'][0]]
    rest = sum(len(props.GROUPS[g]) for g in e['groups'][1:])
    b.append('### %s %s\n' % (e['id'], e['title']))
    b.append('%s. Obligations of its own: %s%s.%s%s' % (
        'Value graphs compared with `spec/%s.cpp`' % props.OBS[own[0]][2], ', '.join('`%s`' % o.split('/')[1] for o in own),
        '; with %d more it rests on (%s)' % (rest, ', '.join(e['groups'][1:])) if rest else '',
        ' Rules: %s.' % ', '.join('`%s`' % r for r in e['rules']) if e['rules'] else '',
        ' Only effects on fields and ends of the process are judged here; the values belong to the other properties.' if e['items'] else ''))
    b.append('Quantifies over %s. Tests cannot: %s\n' % (e['text'], e['why'][0].lower() + e['why'][1:] if not e['why'].startswith(('CNF', 'PSDD')) else e['why']))
t = part(t, 'properties', '\n'.join(b))
t = part(t, 'not applicable', '\n'.join('- **%s %s**: %s' % (e['id'], e['title'], e['na']) for e in catalog.CAT if e['na']))
sd = os.path.join(HERE, 'seeded')
res = {}
f = os.path.join(HERE, 'dev', 'seeded_results.txt')
if os.path.exists(f):
    for l in open(f):
        w = l.split()
        res[w[0]] = [x.split('=')[0] for x in w[1:] if x.endswith('=1')]
rows = []
for i in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, i, 'meta.json')))
    rows.append('| `%s` | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), ' '.join(res[i]) if res.get(i) else 'none (undecided)' if i in res else '?'))
t = part(t, 'seeded', '| change | property | needs | reported by |\n|---|---|---|---|\n' + '\n'.join(rows))
open(D, 'w').write(t)
