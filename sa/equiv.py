"""Decides one obligation: a repository function and its reference model have the
same value graph (return value, out parameters, object state, files, exit)."""
import os
import re
import time
from contracts import *
from diff import *
import ir

SPEC = os.path.join(ir.VERIF, 'spec')
SER = mkT('ser', (mkT('vlit', (sym('nn:root'),)),))
NODELIST = 'std::vector<PsddNode *>'


class Broken(Exception):
    pass


_P = []
_Q = {}


def repo():
    if not _P:
        _P.append(ir.load_repo())
    return _P[0]


def spec(name):
    if name not in _Q:
        _Q[name] = ir.with_spec(repo(), os.path.join(SPEC, name + '.cpp'))
    return _Q[name]


def norm_sig(s):
    return s


def findrepo(pat):
    """the unique repository function whose qualified name is pat, or whose signature is pat"""
    P = repo()
    if pat in P.bysig:
        return P.bysig[pat][0]
    l = [f for s, fs in P.bysig.items() for f in fs[:1] if s.split('(')[0] == pat]
    if len(l) == 1:
        return l[0]
    raise Broken('anchor %s: %d matches' % (pat, len(l)))


def autobind(f, nodes=()):
    b = {}
    for i, p in enumerate(f.params):
        if p['n'] in nodes or i in nodes:
            b[i] = SER
    return b


DROPS = [(), ('uniq',), ('truenode',), ('norm',), ('truenode', 'norm'), ('conf',), ('topnode', 'litnode'), ('truenode', 'norm', 'conf', 'topnode', 'litnode')]


def dropsigs(names):
    tab = {'truenode': 'GetTrueNode', 'norm': 'NormalizePsddNode', 'conf': 'GetConformedPsddDecisionNode', 'topnode': 'GetPsddTopNode',
           'litnode': 'GetPsddLiteralNode', 'ser': 'SerializePsddNodes', 'uniq': '#'}
    return [s for s in CONTRACTS for n in names if tab[n] in s]


class Ob:
    """fn: repository function; ref: reference function name in spec file"""

    def __init__(self, fn, ref, spec, nodes=(), selfp=None, opaque=(), effect=(), trace=(), stream=(), what=(), drop=(), label=None, opts=None, bind=None, this='nn:this', rw=None, skip=None):
        self.__dict__.update(locals())


def rewriter(fn):
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is None:
            y = TT.rebuild(x, go)
            r = memo[x.id] = fn(y)
        return r
    return go


def compare(a, b, rw=None, skip=None):
    """a: reference result, b: implementation result -> list of (what, verdict, path, x, y)"""
    out = []
    go = rewriter(rw) if rw else None

    def one(what, x, y):
        if x is None and y is None:
            return
        if go is not None:
            x = go(x) if x is not None else x
            y = go(y) if y is not None else y
        if x is None or y is None:
            out.append((what, UND, None, x, y))
            return
        if what != 'exit' and (a.exit is not c('no') or b.exit is not c('no')):
            # nothing is observable where the process ends
            x1, y1 = alive(x, a.exit), alive(y, b.exit)
            if x1 is y1 and x is not y:
                x, y = x1, y1
            elif x is not y:
                r = Diff(rw=go).run(x, y)
                if r[0] != SAME:
                    r1 = Diff(rw=go).run(x1, y1)
                    if r1[0] == UND and r[0] == DEF:
                        # where the reference returns, the code ends the process or yields another value
                        r2 = Diff(rw=go).run(x1, alive(y, a.exit))
                        r1 = r2 if r2[0] == DEF else r1
                    if r1[0] == SAME or r[0] == DEF:
                        out.append((what,) + r1)
                        return
                out.append((what,) + r)
                return
        out.append((what,) + Diff(rw=go).run(x, y))
    one('return', a.ret, b.ret)
    one('exit', a.exit, b.exit)
    for k in b.outs:
        if k in a.outs:
            one('out parameter %s' % k[2:], a.outs[k], b.outs[k])
    ks = sorted(set(a.fields) | set(b.fields))
    for k in ks:
        if skip and re.search(skip, k):
            continue
        base = mkT('mempty', (SCRATCH[k],)) if k in SCRATCH else mkT('arr0', (k[2:],))
        x = unscratch(a.fields.get(k, base), base)
        y = unscratch(b.fields.get(k, base), base)
        one('field %s' % k[2:], x, y)
    if a.files is not None or b.files is not None:
        x = a.files if a.files is not None else mkT('cat', ())
        y = b.files if b.files is not None else mkT('cat', ())
        one('file content', x, y)
    return out


def alive(v, ex):
    """v where the function returns, BOT where the process ends"""
    return lift(lambda e, x: x if e is c('no') else BOT, [ex, v]) if ex.op in ('c', 'ite', 'str') else ite(eq(ex, c('no')), v, BOT)


def unscratch(t, base):
    """writes that leave the array as it was"""
    while t is not base:
        if t.op == 'lst' and t.args[0] is base and base.op == 'mempty' and t.args[-1] is base.args[0]:
            return base
        if t.op == 'store' and base.op == 'mempty' and t.args[2] is base.args[0]:
            t = t.args[0]
            continue
        break
    return t


def run(ob, limit=80):
    """returns dict(verdict, items, notes...)"""
    P = repo()
    Q = spec(ob.spec)
    if ob.fn.startswith('use::'):
        # a client of the public interface, written in the spec: its calls resolve into the repository
        P = Q
        f = [h for s, hs in Q.bysig.items() for h in hs if s.split('(')[0] == ob.fn][0]
    else:
        f = findrepo(ob.fn)
    g = Q.byname.get(ob.ref) or [h for s, hs in Q.bysig.items() for h in hs if s.split('(')[0] == 'ref::' + ob.ref]
    if not g:
        raise Broken('reference %s missing in spec %s' % (ob.ref, ob.spec))
    g = g[0]
    selfp = bool(f.cls) and not f.d.get('static') if ob.selfp is None else ob.selfp
    def expand(l):
        return [s for pat in l for s in P.bysig if s.split('(')[0] == pat or s == pat] + [pat for pat in l if '(' in pat and pat not in P.bysig]
    opq_, eff_, trc_, str_ = expand(ob.opaque), expand(ob.effect), expand(ob.trace), expand(ob.stream)
    bind = dict(ob.bind or {})
    for i, p in enumerate(f.params):
        if p['n'] in ob.nodes or i in ob.nodes:
            bind[i] = SER
    best = None
    t0 = time.time()
    for names in ([tuple(ob.drop)] + [tuple(ob.drop) + d for d in DROPS[2:]]):
        ds = dropsigs(names)
        b = analyze(P, f.sig, fn=f, bind=bind, opaque=opq_, effect=eff_, trace=trc_, stream=str_, drop=ds, opts=ob.opts, this=ob.this)
        a = analyze(Q, g.sig, fn=g, bind=bind, opaque=opq_, effect=eff_, trace=trc_, stream=str_, drop=ds, opts=ob.opts, selfp=selfp, this=ob.this)
        items = compare(a, b, ob.rw, ob.skip)
        v = max([i[1] for i in items] or [SAME])
        n = sum(1 for i in items if i[1] != SAME)
        r = dict(verdict=v, items=items, a=a, b=b, fn=f, ob=ob, drop=names)
        if v == SAME:
            best = r
            break
        if best is None:
            best = r
        else:
            if v == UND and best['verdict'] == DEF and names != tuple(ob.drop) and any(i[1] == UND and 'abstraction' in str(i[2]) for i in items):
                best = r
        if v == DEF or time.time() - t0 > limit * 0.5:
            if not any(mism(i) for i in items):
                break
    best['time'] = time.time() - t0
    return best


def mism(i):
    return i[3] is not None and i[4] is not None and (i[3].op in ABSTR or i[4].op in ABSTR)
