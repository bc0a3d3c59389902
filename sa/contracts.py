"""Abstractions of repository functions by their contract (each is itself the
subject of a property) and the entry driver."""
import re
from model import *

CONTRACTS = {}


def contract(*sigs):
    def d(f):
        for s in sigs:
            CONTRACTS[s] = f
        return f
    return d


def ctr(op, *idx, this=False):
    def f(m, e, obj, args, want):
        vs = []
        if this:
            vs.append(m.simp(m.addr(m.lv(obj))))
        av = [m.ev(a) for a in args]
        m.event('contract', (op, av), e)
        vs += [av[i] for i in idx]
        return V(app(op, *vs))
    return f


CONTRACTS['psdd_node_util::SerializePsddNodes(PsddNode *)'] = lambda m, e, obj, args, want: V(
    lift(lambda x: mkT('ser', (mkT('vlit', (x,)),)) if x is not NULL and x is not BOT else BOT, [m.ev(args[0])]))
CONTRACTS['psdd_node_util::SerializePsddNodes(const std::vector<PsddNode *> &)'] = ctr('ser', 0)
CONTRACTS['vtree_util::SerializeVtree(vtree_t *)'] = ctr('vser', 0)
CONTRACTS['psdd_node_util::GetCoveredPsddNodes(const std::vector<PsddNode *> &)'] = ctr('covered', 0)
CONTRACTS['PsddManager::GetTrueNode(vtree_t *, unsigned long)'] = ctr('truenode', 0, 1, this=True)
CONTRACTS['PsddManager::GetTrueNode(vtree_t *, unsigned long, std::unordered_map<long, PsddNode *> *)'] = ctr('truenode', 0, 1, this=True)
CONTRACTS['PsddManager::NormalizePsddNode(vtree_t *, PsddNode *, unsigned long)'] = ctr('norm', 0, 1, 2, this=True)
CONTRACTS['PsddManager::NormalizePsddNode(vtree_t *, PsddNode *, unsigned long, std::unordered_map<long, PsddNode *> *)'] = ctr('norm', 0, 1, 2, this=True)
CONTRACTS['PsddManager::GetPsddTopNode(unsigned int, unsigned long, const PsddParameter &, const PsddParameter &)'] = ctr('topnode', 0, 1, 2, 3, this=True)
CONTRACTS['PsddManager::GetPsddLiteralNode(int, unsigned long)'] = ctr('litnode', 0, 1, this=True)
CONTRACTS['PsddManager::GetConformedPsddDecisionNode(const std::vector<PsddNode *> &, const std::vector<PsddNode *> &, const std::vector<PsddParameter> &, unsigned long)'] = ctr('conf', 0, 1, 2, 3, this=True)


def _uniq(x):
    if x.op == 'newnode':
        return mkT('uniq', x.args)
    return mkT('uniq1', (x,))


SIMP['uniq1'] = _uniq
TT.NONNULL.update({'uniq1'})


@contract('PsddUniqueTable::GetUniqueNode(PsddNode *, unsigned long *)')
def _c_uniq(m, e, obj, args, want):
    n = m.ev(args[0])
    m.ev(args[1])
    m.event('uniq', n, e)
    return V(app('uniq1', n))


@contract('RandomDoubleGenerator::generate()', 'RandomDoubleFromUniformGenerator::generate()', 'RandomDoubleFromGammaGenerator::generate()')
def _c_gen(m, e, obj, args, want):
    return V(draw(m, m.simp(m.addr(m.lv(obj))), 'gen'))


def newhook(m, t, ini, vals, e):
    if t in KIND:
        pts = ini['pt']
        bynm = {}
        f = m.prog.resolve(ini.get('sig', ''), m.curtu())
        ps = vals[1:]
        return mkT('newnode', (('LTD'[KIND[t]]),) + tuple(ps)) if not any(v.op == 'ite' for v in ps) else app('newnode', 'LTD'[KIND[t]], *ps)
    return None


SCRATCH = {'f:PsddNode::user_data_': ZERO, 'f:PsddNode::activation_flag_': FALSE}


def content(m, v):
    """a pointer to a variable stands for what the variable holds"""
    return lift(lambda x: m.rd(x.args[0]) if x.op == 'ptr' else x, [v])


def opq(sig):
    """a repository function kept abstract on both sides: equal arguments, equal result"""
    name = 'fn:' + sig.split('(')[0].split('::')[-1]

    def f(m, e, obj, args, want):
        vs = []
        if obj is not None:
            vs.append(content(m, m.simp(m.addr(m.lv(obj)))))
        for a in args:
            vs.append(content(m, m.ev(a)))
        return V(app(name, *vs))
    return f


def eff(sig):
    """an abstract operation that updates the objects its non-const pointer arguments point to"""
    name = 'fn:' + sig.split('(')[0].split('::')[-1]

    def f(m, e, obj, args, want):
        vs = []
        if obj is not None:
            vs.append(m.simp(m.addr(m.lv(obj))))
        av = [m.ev(a) for a in args]
        ptrs = []
        for i, (a, pt) in enumerate(zip(av, e.get('pt', []))):
            if isptr(pt) and not pt.startswith('const ') and kindname(pt) not in REFKINDS:
                ptrs.append((i, a, m.rd(m.derefv(a, pt[:-1].strip()))))
        base = vs + [a for i, a in enumerate(av) if i not in [p[0] for p in ptrs]] + [p[2] for p in ptrs]
        for i, a, old in ptrs:
            m.wr(m.derefv(a, e["pt"][i][:-1].strip()), app(name + ":%d" % i, *base))
        return V(app(name, *base)) if e.get('t') != 'void' else ('val', ZERO)
    return f


def trc(sig):
    """a call whose order and arguments are themselves the observable: appended to the history of such calls"""
    name = 'fn:' + sig.split('(')[0].split('::')[-1]

    def f(m, e, obj, args, want):
        vs = []
        if obj is not None:
            vs.append(content(m, m.simp(m.addr(m.lv(obj)))))
        vs += [content(m, m.simp(m.argval(m.arg(a, p)))) for a, p in zip(args, e['pt'])]
        h = mkT('L.fld', (mkT('L.obj', (sym('nn:world'), 'World')), '!calls'))
        m.wr(h, app(name + '!', m.rd(h), *vs))
        return V(app(name, *vs)) if e.get('t') != 'void' else ('val', ZERO)
    return f


def strm(sig):
    """a call that delivers the next item of a source: the n-th call gives the n-th item"""
    name = sig.split('(')[0].split('::')[-1]

    def f(m, e, obj, args, want):
        return V(draw(m, m.ev(args[0]) if args else m.simp(m.addr(m.lv(obj))), name))
    return f


REFKINDS = ('PsddNode', 'PsddManager', 'PsddLiteralNode', 'PsddTopNode', 'PsddDecisionNode', 'RandomDoubleGenerator',
            'RandomDoubleFromUniformGenerator', 'vtree_t', 'sdd_node_t', 'sdd_manager_t', 'char', 'void')


def memoclasses(prog):
    """classes that only store and retrieve results: one const lookup that reports whether
    it found an entry through a bool pointer, one void update"""
    cls = {}
    for s, fs in prog.bysig.items():
        for f in fs[:1]:
            if f.cls and f.kind == 'method':
                cls.setdefault(f.cls, []).append(f)
    out = {}
    for c_, fs in cls.items():
        lk = [f for f in fs if f.sig.endswith(' const') and any(p['t'] == 'bool *' for p in f.params)]
        up = [f for f in fs if f not in lk and strip_cv(f.ret) == 'void']
        if len(lk) == 1 and len(up) == 1 and len(fs) == 2:
            out[c_] = (lk[0], up[0])
    return out


def memohooks(prog, hooks):
    names = []
    for c_, (lk, up) in memoclasses(prog).items():
        names.append(c_.split('::')[-1])

        def look(m, e, obj, args, want, lk=lk):
            av = [m.arg(a, p['t']) for a, p in zip(args, lk.params)]
            m.event('lookup', [m.argval(a) for a in av], e)
            for a, p in zip(av, lk.params):
                if p['t'] == 'bool *':
                    m.wr(m.derefv(m.argval(a), 'bool'), FALSE)
            return V(mkT('undef', ('miss',)))

        def upd(m, e, obj, args, want, up=up):
            av = [m.argval(m.arg(a, p['t'])) for a, p in zip(args, up.params)]
            m.event('update', av, e)
            return ('val', ZERO)
        hooks[lk.sig] = look
        hooks[up.sig] = upd
    return names


class Result:
    pass


def analyze(prog, sig, tu=None, opts=None, bind=None, this='nn:this', contracts=True, drop=(), fn=None, selfp=False, opaque=(), effect=(), trace=(), stream=()):
    opts = dict(opts or {})
    hooks = {}
    if contracts:
        hooks.update({k: v for k, v in CONTRACTS.items() if k not in drop and k != sig})
    for o in opaque:
        hooks[o] = opq(o)
    for o in effect:
        hooks[o] = eff(o)
    for o in trace:
        hooks[o] = trc(o)
    for o in stream:
        hooks[o] = strm(o)
    hooks.update(opts.get('hooks', {}))
    mn = memohooks(prog, hooks) if opts.get('memo', True) else []
    opts.setdefault('dropparam', lambda p: any(re.search(r'\b%s\b' % n, p['t']) for n in mn))
    opts['hooks'] = hooks
    opts.setdefault('newhook', newhook)
    m = Machine(prog, opts)
    f = fn or prog.find(sig)
    if f is None:
        return None
    m.tu = f.tu
    m.S.v['!rng'] = ZERO
    for k, v in SCRATCH.items():
        if opts.get('scratch', True):
            m.S.v[k] = mkT('mempty', (v,))
    fr = Frame(f, sym(this) if f.cls and not f.d.get('static') else None)
    fr.rett = strip_cv(f.ret)
    fr.retref = isref(f.ret)
    outs = []
    bind = bind or {}
    av = []
    for i0, p in enumerate(f.params):
        i = i0 - 1 if selfp else i0
        t = strip_cv(p['t'])
        b = sym(this) if i < 0 else bind.get(i)
        nm_ = 'p%d' % i
        if b is None:
            if t in UNS:
                b = sym('u:' + nm_)
                if t.startswith('unsigned long'):
                    WIDE.add(b)
            elif isptr(t) and kindname(t) in ('PsddNode', 'PsddManager', 'PsddLiteralNode', 'PsddTopNode', 'PsddDecisionNode', 'RandomDoubleGenerator',
                                              'RandomDoubleFromUniformGenerator', 'vtree_t', 'sdd_node_t', 'sdd_manager_t'):
                b = sym('nn:' + nm_)
            elif isptr(t) and not kindname(t) in ('char', 'void'):
                inner = t[:-1].strip()
                k = 'o:%d' % i
                m.S.v[k] = sym('*p%d' % i)
                if re.match(r'(const )?std::(unordered_)?(map|set|multimap|multiset)<', inner):
                    TT.MAPSYMS.add('*p%d' % i)
                b = mkT('ptr', (loc(k),))
                outs.append(k)
            else:
                b = sym(nm_)
                if 'unsigned long' in t:
                    WIDE.add(b)
                if t == 'bool':
                    b = asbool(b)
        if isref(p['t']):
            k = 'o:%d' % i
            m.S.v[k] = b
            fr.alias[p['id']] = loc(k)
            if not p['t'].startswith('const '):
                outs.append(k)
            av.append(('lv', loc(k)))
        else:
            m.S.v[key(fr, p['id'])] = b
            av.append(('val', b))
    fr.args = av
    rk, rv = 'ret%d' % fr.id, 'rv%d' % fr.id
    m.S.v[rk] = FALSE
    if opts.get('assume') is not None:
        m.S.assume = opts['assume']
    m.stack.append(fr)
    if f.kind == 'ctor':
        m.S.v['self'] = mkT('undef', ('obj',))
        m.ctorinits(f, fr.this)
    m.st(f.body)
    m.stack.pop()
    r = Result()
    r.m = m
    r.fn = f
    S = m.S
    v = S.v.get(rv)
    if v is not None and fr.retref:
        v = m.rd(v)
    r.ret = v
    r.exit = S.v.get('exit', c('no'))
    r.outs = {k: S.v[k] for k in outs}
    r.fields = {k: v for k, v in S.v.items() if k[:2] in ('f:', 'm:') and v is not mkT('arr0', (k[2:],)) and not (k in SCRATCH and v is mkT('mempty', (SCRATCH[k],)))}
    r.files = S.v.get('file:written')
    r.events = m.events
    r.notes = m.notes
    r.inlined = m.inlined
    return r
