"""verdicts of the named obligations against PSDD_REPO, as JSON"""
import sys
import json
import signal
sys.path.insert(0, __import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))), 'sa'))
sys.setrecursionlimit(20000)
from props import *
V = ['SAME', 'UND', 'DEF']


class TO(BaseException):
    pass


def onalarm(*a):
    raise TO()


if __name__ == '__main__':
    signal.signal(signal.SIGALRM, onalarm)
    try:
        repo()
    except ir.ToolError as e:
        print(json.dumps(dict(nocompile=str(e)[-200:])))
        sys.exit()
    out = {}
    for n in sys.argv[1:]:
        signal.alarm(60)
        if n.startswith('rule:'):
            import rules
            try:
                r = rules.RULES[n[5:]](repo())
                out[n] = ['DEF' if r['findings'] else 'UND' if r.get('undecided') else 'SAME', [(f['key'], 'DEF', str(f['detail'])[:200], '', f['msg']) for f in r['findings']] +
                          [('undecided', 'UND', u[:300], '', '') for u in r.get('undecided', [])]]
            except BaseException as e:
                out[n] = ['EXC ' + repr(e)[:200], []]
            signal.alarm(0)
            continue
        try:
            r = run(make(n), 30)
            signal.alarm(0)
            out[n] = [V[r['verdict']], [(i[0], V[i[1]], showpath(i[2]), show(i[3])[:400] if i[3] is not None else '', show(i[4])[:400] if i[4] is not None else '') for i in r['items'] if i[1]]]
        except TO:
            out[n] = ['TIME', []]
        except BaseException as e:
            signal.alarm(0)
            out[n] = ['EXC ' + repr(e)[:200], []]
    print(json.dumps(out))
