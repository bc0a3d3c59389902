"""Calls: inlining of repository functions, dynamic dispatch on node kinds, and
models of the library functions the repository uses."""
from exec import *
import exec as X

KIND = {'PsddLiteralNode': 0, 'PsddTopNode': 1, 'PsddDecisionNode': 2}


# ------------------------------------------------------------------ term simplifiers
def _log(x):
    if x.op == 'exp':
        return x.args[0]
    if x is ONE:
        return ZERO
    if x is ZERO:
        return neg(mkT('inf', ()))
    return mkT('log', (x,))


def _exp(x):
    if x.op == 'log':
        return x.args[0]
    if x is ZERO:
        return ONE
    if x is neg(mkT('inf', ())):
        return ZERO
    return mkT('exp', (x,))


def _abs(x):
    if isnum(x):
        return c(abs(x.args[0]))
    if nonneg(x):
        return x
    n = TT._neg(x)
    return mkT('abs', (min((x, n), key=lambda t: t.id),))


def _notv(x):
    return x


def _drop1(x):
    if x.op == 'vlit' and x.args:
        return mkT('vlit', x.args[1:])
    if x.op == 'cat' and x.args[0].op == 'vlit' and x.args[0].args:
        return cat(mkT('vlit', x.args[0].args[1:]), *x.args[1:])
    return mkT('drop1', (x,))


def _dropb(x):
    if x.op == 'vlit' and x.args:
        return mkT('vlit', x.args[:-1])
    if x.op == 'cat' and x.args[-1].op == 'vlit' and x.args[-1].args:
        return cat(*x.args[:-1], mkT('vlit', x.args[-1].args[:-1]))
    l = x.args[-1] if x.op == 'cat' else x
    if l.op == 'c' and isinstance(l.args[0], str) and l.args[0]:
        return cat(*(x.args[:-1] if x.op == 'cat' else ()), c(l.args[0][:-1]))
    return mkT('dropb', (x,))


def _rev(x):
    if x.op == 'rev':
        return x.args[0]
    if x.op == 'vlit':
        return mkT('vlit', x.args[::-1])
    return mkT('rev', (x,))


def _table(x):
    """(variables, truth table) of a formula over given variables"""
    if x.op == 'sdd_true':
        return (), (True,)
    if x.op == 'sdd_false':
        return (), (False,)
    if x.op == 'sdd_lit' and isnum(x.args[0]) and x.args[0].args[0] != 0:
        l = int(x.args[0].args[0])
        return (abs(l),), ((False, True) if l > 0 else (True, False))
    if x.op == 'sddfn':
        vs, bs = x.args[1].args[0].split(':')
        return tuple(int(v) for v in vs.split(',')), tuple(b == '1' for b in bs)
    return None


def _formula(m, vs, tab):
    """the one term for a Boolean function"""
    vs, tab = list(vs), list(tab)
    i = 0
    while i < len(vs):
        k = 1 << (len(vs) - 1 - i)
        lo = [tab[j] for j in range(len(tab)) if not j & k]
        hi = [tab[j] for j in range(len(tab)) if j & k]
        if lo == hi:
            vs.pop(i)
            tab = lo
        else:
            i += 1
    if not vs:
        return mkT('sdd_true' if tab[0] else 'sdd_false', (m,))
    if len(vs) == 1:
        return mkT('sdd_lit', (c(vs[0] if tab[1] else -vs[0]), m))
    return mkT('sddfn', (m, c(','.join(map(str, vs)) + ':' + ''.join('01'[b] for b in tab))))


def _combine(op, m, xs):
    ts = [_table(x) for x in xs]
    if len(xs) < 2 or None in ts:
        return None
    if any(x.args[1 if x.op == 'sdd_lit' else 0] is not m for x in xs):
        return None
    vs = sorted({v for t in ts for v in t[0]})
    if len(vs) > 6:
        return None
    tab = []
    for j in range(1 << len(vs)):
        val = {v: bool(j >> (len(vs) - 1 - i) & 1) for i, v in enumerate(vs)}
        rs = [t[1][sum(1 << (len(t[0]) - 1 - i) for i, v in enumerate(t[0]) if val[v])] for t in ts]
        tab.append(all(rs) if op == 'ac:sdd_conjoin' else any(rs))
    return _formula(m, vs, tab)


def _ac(op):
    def f(m, *xs):
        r = _combine(op, m, xs)
        if r is not None:
            return r
        out = []
        for x in xs:
            if x.op == op and x.args[0] is m:
                out += list(x.args[1:])
            else:
                out.append(x)
        unit = {'ac:sdd_conjoin': 'sdd_true', 'ac:sdd_disjoin': 'sdd_false'}[op]
        zero = {'ac:sdd_conjoin': 'sdd_false', 'ac:sdd_disjoin': 'sdd_true'}[op]
        if any(x.op == zero for x in out):
            return [x for x in out if x.op == zero][0]
        out = sorted({x.id: x for x in out if x.op != unit}.values(), key=lambda t: t.id)
        if not out:
            return mkT(unit, (m,))
        if len(out) == 1:
            return out[0]
        return mkT(op, (m,) + tuple(out))
    return f


def _known(kind):
    def f(x):
        k = {'sdd_true': 'istrue', 'sdd_false': 'isfalse', 'sdd_lit': 'islit', 'sddfn': 'isdec'}.get(x.op)
        return mkT('sdd:' + kind, (x,)) if k is None else TRUE if k == kind else FALSE
    return f


def _mod(a, b):
    if isnum(a) and isnum(b) and a.args[0] >= 0 and b.args[0] > 0:
        return c(a.args[0] % b.args[0])
    return mkT('mod', (a, b))


SIMP.update({'mod': _mod})
SIMP.update({'sdd:istrue': _known('istrue'), 'sdd:isfalse': _known('isfalse'), 'sdd:islit': _known('islit')})
SIMP.update({'log': _log, 'exp': _exp, 'abs': _abs, 'drop1': _drop1, 'dropb': _dropb, 'rev': _rev,
             'ac:sdd_conjoin': _ac('ac:sdd_conjoin'), 'ac:sdd_disjoin': _ac('ac:sdd_disjoin')})


def selhook(x, k):
    # elements of concatenations: head / tail
    if x.op == 'cat':
        if isnum(k):
            i = int(cval(k))
            for p in x.args:
                n = size(p)
                if isnum(n):
                    if i < cval(n):
                        return sel(p, c(i))
                    i -= int(cval(n))
                else:
                    if p.op == 'gen' or i < 0:
                        break
                    break
        # last element
        tot = size(x)
        if sub(sub(tot, ONE), k) is ZERO and x.args[-1].op == 'vlit' and x.args[-1].args:
            return x.args[-1].args[-1]
    if x.op == 'ser' and k is ZERO and x.args[0].op == 'vlit' and x.args[0].args:
        return x.args[0].args[0]
    if x.op == 'vser' and k is ZERO:
        return x.args[0]
    if x.op == 'rev':
        return sel(x.args[0], sub(sub(size(x.args[0]), ONE), k))
    if x.op == 'c' and isinstance(x.args[0], str) and isnum(k):
        s = x.args[0]
        i = int(cval(k))
        return c(ord(s[i])) if i < len(s) else ZERO
    return None


TT.SELHOOK.append(selhook)


EQSIZE = {'fld:PsddDecisionNode::subs_', 'fld:PsddDecisionNode::parameters_', 'fld:PsddDecisionNode::data_counts_'}


def sizehook(x):
    if x.op in EQSIZE:
        return mkT('size', (mkT('fld:PsddDecisionNode::primes_', x.args),))
    if x.op in ('rev', 'sort'):
        return size(x.args[0])
    if x.op in ('drop1', 'dropb'):
        return sub(size(x.args[0]), ONE)
    return None


TT.SIZEHOOK.append(sizehook)
TT.NONNEG.update({'rdu'})
TT.NONNULL.update({'newnode', 'conf', 'truenode', 'norm', 'topnode', 'litnode', 'newleaf', 'newint', 'sdd_true', 'sdd_false',
                   'sdd_lit', 'sddfn', 'ac:sdd_conjoin', 'ac:sdd_disjoin'})


def _distinct(a, b):
    """known different pointers: a decision node's prime and sub; a node and its children"""
    for x, y in ((a, b), (b, a)):
        if x.op == 'elem' and x.args[0].op.startswith('fld:PsddDecisionNode::primes_') and \
                y.op == 'elem' and y.args[0].op.startswith('fld:PsddDecisionNode::subs_') and x.args[0].args[0] is y.args[0].args[0]:
            return True
        if x.op == 'elem' and x.args[0].op in ('fld:PsddDecisionNode::primes_', 'fld:PsddDecisionNode::subs_') and x.args[0].args[0] is y:
            return True
        if x.op == 'fld:PsddNode::node_index_' and y.op == x.op and _distinct(x.args[0], y.args[0]):
            return True
    return False


TT.DISTINCT.append(_distinct)


def kindname(t):
    return strip_cv(t).rstrip('*').strip()


class Machine(Engine):
    MAXDEPTH = 40

    def __init__(self, prog, opts=None):
        super().__init__(prog, opts)
        self.loopstack_ctl = []
        self.lamtab = {}
        self.tu = None
        self.depth = 0
        self.hooks = dict(HOOKS)
        self.hooks.update(self.opts.get('hooks', {}))
        self.recursed = False
        self.recids = {}

    # -------------------------------------------------------------- arguments
    def arg(self, e, pt):
        if isref(pt):
            return ('lv', self.lv(e))
        v = self.ev(e)
        if strip_cv(pt) == 'bool':
            v = asbool(v)
        return ('val', v)

    def argval(self, a):
        return self.rd(a[1]) if a[0] == 'lv' else a[1]

    # -------------------------------------------------------------- the call
    def call(self, e, want='val'):
        fn = e.get('fn', '?')
        sig = e.get('sig', '')
        if e['k'] == 'call' and e.get('mem'):
            obj = e['args'][0]
            args = e['args'][1:]
        elif e['k'] == 'mcall':
            obj = e.get('obj')
            args = e['args']
        else:
            obj = None
            args = e['args']
        if fn in ('__assert_fail', '__assert'):
            self.event('assert', FALSE, e)
            self.die(mkT('abort', ()))
            return ('val', ZERO)
        h = self.hooks.get(sig) or self.hooks.get(fn)
        if h:
            r = h(self, e, obj, args, want)
            if r is not None:
                return r
        if e.get('repo') or self.prog.find(sig) or sig in self.prog.overriders:
            r = self.repocall(e, obj, args, want)
            if r is not None:
                return r
        if obj is not None and fn.endswith('operator()'):
            ov = self.ev(obj)
            if ov.op == 'lamref':
                return ('val', self.lamcall(ov, [self.arg(a, 'T &') for a in args]))
        if fn == '?' and e.get('ce') is not None:
            cv = self.ev(e['ce'])
            if cv.op == 'lamref':
                return ('val', self.lamcall(cv, [self.arg(a, 'T &') for a in args]))
        # unknown external function: result depends on the arguments; mutable reference arguments are havocked
        pts = e.get('pt', [])
        vals = []
        if obj is not None:
            vals.append(self.ev(obj))
        for i, a in enumerate(args):
            pt = pts[i] if i < len(pts) else ''
            if isref(pt) and not pt.startswith('const ') and not pt.endswith('&&'):
                lv = self.lv(a)
                vals.append(self.rd(lv))
                self.wr(lv, top('out of ' + fn))
            else:
                v = self.ev(a)
                vals.append(v)
                if not (isptr(pt) and pt.startswith('const ')):
                    self.reach(v, fn)
        if obj is not None and not e.get('const') and e.get('mem') is not False and strip_cv(obj.get('t', '')).split('<')[0].startswith('std::'):
            try:
                olv = self.lv(obj)
            except Unsupported:
                olv = None
            if olv is not None and not obj.get('t', '').startswith('const '):
                self.wr(olv, top('object of ' + fn))
        self.notes.append('unmodelled %s @%s' % (fn, e.get('l')))
        if e.get('noret'):
            self.die(mkT('exit', (c(fn),)))
            return ('val', ZERO)
        self.event('call', (fn, vals), e)
        return ('val', app('ext:' + fn, *vals))

    def reach(self, v, fn):
        """an unmodelled callee may write what an argument gives it access to"""
        for x in leaves(v):
            if x.op in ('it', 'rit', 'nit', 'mit', 'mend'):
                self.wr(x.args[0], top('out of ' + fn))
            elif x.op == 'ptr':
                self.wr(x.args[0], top('out of ' + fn))
            elif x.op == 'lamref':
                for k in list(self.S.v):
                    if not k.startswith(('ret', 'brk', 'cont', 'exit', 'rv')):
                        self.S.v[k] = ite(self.S.pc, top('lambda given to ' + fn), self.S.v[k])

    def e_call(self, e):
        r = self.call(e)
        return self.rd(r[1]) if r[0] == 'lv' else r[1]

    e_mcall = e_call

    # -------------------------------------------------------------- repository functions
    def curtu(self):
        for fr in reversed(self.stack):
            if fr.fn is not None:
                return fr.fn.tu
        return self.tu

    def repocall(self, e, obj, args, want):
        sig = e['sig']
        this = None
        if obj is not None:
            this = self.simp(self.addr(self.lv(obj)))
            self.event('deref', this, e) if False else None
        if e.get('virt') and not e.get('nonvirt') and obj is not None:
            ov = self.prog.overriders.get(sig, [])
            classes = {f.cls: f for f in self.allover(sig)}
            base = self.prog.find(sig)
            if set(classes) & set(KIND) or (base is not None and base.cls in KIND):
                own = base.cls if base is not None and base.cls in KIND else None
                if own is None:
                    return self.dispatch(e, this, classes, base, args, want)
                f = base
            else:
                cand = self.allover(sig)
                if base is None and len(cand) == 1:
                    f = cand[0]
                elif base is not None and not cand:
                    f = base
                else:
                    return None
            return self.inline(f, this, e, args, want)
        f = self.prog.resolve(sig, self.curtu())
        if f is None:
            return None
        return self.inline(f, this, e, args, want)

    def allover(self, sig, seen=None):
        out = []
        for f in self.prog.overriders.get(sig, []):
            out.append(f)
            out += self.allover(f.sig)
        return out

    def dispatch(self, e, this, classes, base, args, want):
        av = [self.arg(a, p) for a, p in zip(args, e['pt'])]
        S = self.S
        pc0 = S.pc
        vals = [None] * 3
        outpc = FALSE
        for cls, i in KIND.items():
            g = kindsel(this, [TRUE if j == i else FALSE for j in range(3)])
            # a null receiver has no kind: keep the path out
            S.pc = band(pc0, lift(lambda x: x if x in (TRUE, FALSE) else FALSE, [g]))
            if S.pc is FALSE or band(S.assume, S.pc) is FALSE:
                continue
            f = classes.get(cls) or base
            if f is None:
                vals[i] = ('val', top('pure virtual'))
                outpc = bor(outpc, S.pc)
                continue
            vals[i] = self.inline2(f, this, av, e, want)
            outpc = bor(outpc, S.pc)
        S.pc = outpc
        have = [v for v in vals if v is not None]
        if not have:
            return ('val', BOT)
        if all(v[0] == 'lv' for v in have):
            d = have[0][1]
            return ('lv', kindsel(this, [v[1] if v else BOT for v in vals]))
        w = [(self.rd(v[1]) if v[0] == 'lv' else v[1]) if v else BOT for v in vals]
        return ('val', kindsel(this, w))

    def inline(self, f, this, e, args, want):
        pts = [p['t'] for p in f.params]
        av = [self.arg(a, p) for a, p in zip(args, pts)]
        return self.inline2(f, this, av, e, want)

    def inline2(self, f, this, av, e, want):
        # recursion
        for d, fr in enumerate(self.stack):
            if fr.fn is f:
                return self.recurse(f, d, this, av, e)
        if len(self.stack) > self.MAXDEPTH:
            return ('val', self.top('depth', e))
        self.inlined.add(f.sig)
        fr = Frame(f, this)
        fr.rett = strip_cv(f.ret)
        fr.retref = isref(f.ret)
        fr.args = av
        for p, a in zip(f.params, av):
            self.bindparam(fr, p, a)
        if len(av) < len(f.params):
            for p in f.params[len(av):]:
                if p.get('def') is not None:
                    self.S.v[key(fr, p['id'])] = self.ev(p['def'])
        S = self.S
        self.stack.append(fr)
        rk, rv = 'ret%d' % fr.id, 'rv%d' % fr.id
        S.v[rk] = FALSE
        pc0 = S.pc
        ctl, self.loopstack_ctl = self.loopstack_ctl, []
        try:
            if f.kind == 'ctor':
                self.ctorinits(f, this)
            self.st(f.body)
        finally:
            self.stack.pop()
            self.loopstack_ctl = ctl
        S = self.S
        S.pc = bor(S.pc, S.v.pop(rk))
        v = S.v.pop(rv, None)
        pre = 'v%d.' % fr.id
        if v is None:
            return ('val', ZERO)
        v = self.simp(v)
        if fr.retref:
            return ('lv', v)
        for k in [k for k in S.v if k.startswith(pre)]:
            if not self.mentions(v, k):
                del S.v[k]
        return ('val', v)

    def mentions(self, v, k):
        return any(t.op == 'loc' and t.args[0] == k for t in subterms(v))

    def bindparam(self, fr, p, a):
        if isref(p['t']):
            if a[0] == 'lv':
                fr.alias[p['id']] = self.simp(a[1])
            else:
                fr.alias[p['id']] = self.temp(a[1])
        else:
            v = a[1] if a[0] == 'val' else self.rd(a[1])
            if strip_cv(p['t']) == 'bool':
                v = asbool(v)
            self.S.v[key(fr, p['id'])] = self.simp(v)

    def recurse(self, f, d, this, av, e):
        """a call back into a function already being summarised: an uninterpreted
        application of that function to its arguments (the summary is its fixed-point
        equation)"""
        self.recursed = True
        fr = self.stack[d]
        vals = []
        if this is not None:
            vals.append(this)
        outs = []
        for p, a in zip(f.params, av):
            t = strip_cv(p['t'])
            v = self.argval(a)
            if self.opts.get('dropparam') and self.opts['dropparam'](p):
                continue
            # pointers to caller storage stand for the pointed-to value
            def der(x):
                return x
            vals.append(v)
            if (isref(p['t']) and not p['t'].startswith('const ')) and a[0] == 'lv':
                outs.append(a[1])
            elif isptr(p['t']) and tmpl(t[:-1].strip()) in (VECS | MAPS | STRS) or isptr(p['t']) and isnumt(t[:-1]):
                outs.append(self.obj(v, t[:-1]))
        reads = []
        rid = self.recids.setdefault(fr.id, len(self.recids))
        name = 'mu:%d' % rid
        vals2 = []
        for v in vals:
            vals2.append(lift(lambda x: self.rd(x.args[0]) if x.op == 'ptr' else x, [v]))
        self.event('recurse', (f.sig, vals2), e)
        if outs:
            olds = [self.rd(o) for o in outs]
            for i, o in enumerate(outs):
                self.wr(o, app('muout%d:%d' % (i, rid), *vals2))
        r = app(name, *vals2) if vals2 else mkT(name, ())
        if strip_cv(f.ret) == 'bool':
            r = asbool(r)
        return ('val', r)

    def lamcall(self, ref, av):
        le, pfr = self.lamtab[ref.id]
        for fr in self.stack:
            if getattr(fr, 'lam', None) is le:
                return self.top('recursive lambda', le)
        fr = Frame(None, pfr.this)
        fr.parent = pfr
        fr.lam = le
        fr.fn = pfr.fn
        fr.retref = False
        fr.rett = ''
        for p, a in zip(le['params'], av):
            self.bindparam(fr, p, a)
        S = self.S
        self.stack.append(fr)
        rk, rv = 'ret%d' % fr.id, 'rv%d' % fr.id
        S.v[rk] = FALSE
        ctl, self.loopstack_ctl = self.loopstack_ctl, []
        try:
            self.st(le['body'])
        finally:
            self.stack.pop()
            self.loopstack_ctl = ctl
        S = self.S
        S.pc = bor(S.pc, S.v.pop(rk))
        v = S.v.pop(rv, ZERO)
        return self.simp(v)

    # -------------------------------------------------------------- construction
    def ctorinits(self, f, this):
        t = f.cls
        for i in f.inits:
            ie = i['e']
            if i.get('field'):
                fld = i['field']
                lv = lift(lambda x: L_fld(x, fld), [self.obj(this, t)])
                ft = self.fieldtype(t, fld)
                if ft and isref(ft):
                    v = self.ev(ie)
                else:
                    v = self.ev(ie)
                if ft and strip_cv(ft) == 'bool':
                    v = asbool(v)
                self.wr(lv, v)
            elif ie['k'] == 'ctor':
                self.ctorinto(ie, this)
            elif ie['k'] == 'copy':
                self.wr(self.obj(this, t), self.ev(ie))

    def fieldtype(self, cls, f):
        r = self.prog.recs.get(cls)
        if not r:
            return None
        for x in r.get('fields', []):
            if x.get('n') == f or x.get('f') == f:
                return x.get('t')
        return None

    def ctorinto(self, ie, this):
        f = self.prog.resolve(ie.get('sig', ''), self.curtu())
        if f is None:
            # implicit or library constructor: default every field
            self.defaultfields(ie['cls'], this)
            return
        self.inline(f, this, ie, ie['args'], 'val')

    def defaultfields(self, cls, this):
        r = self.prog.recs.get(cls)
        for x in (r or {}).get('fields', []):
            n = x.get('n') or x.get('f')
            lv = lift(lambda y: L_fld(y, n), [self.obj(this, cls)])
            if x.get('init') is not None:
                self.wr(lv, self.ev(x['init']))
            else:
                self.wr(lv, self.default(x['t']))

    def construct(self, t, ini, args, e):
        """value of a freshly constructed object of repository class t"""
        k = self.nm('obj')
        fr = {}
        r = self.prog.recs.get(t)
        fields = {}
        cur = t
        chain = [t]
        while r:
            for x in r.get('fields', []):
                n = x.get('n') or x.get('f')
                fields[n] = self.default(x['t']) if not isnumt(x['t']) and not isptr(x['t']) else mkT('undef', (strip_cv(x['t']),))
                if x.get('init') is not None:
                    fields[n] = self.ev(x['init'])
            bs = r.get('bases') or []
            r = self.prog.recs.get(bs[0]) if bs else None
        self.S.v[k] = X.rec(t, fields)
        this = mkT('ptr', (loc(k),))
        f = self.prog.resolve(ini.get('sig', ''), self.curtu())
        if f is not None:
            self.inline2(f, this, args, e, 'val')
        return self.rd(loc(k))

    def e_ctor(self, e):
        t = e['cls']
        tt = strip_cv(e['t'])
        h = self.hooks.get('ctor:' + t)
        if h:
            r = h(self, e)
            if r is not None:
                return r
        if t in self.prog.recs and not (t == 'PsddParameter' and self.prim):
            f = self.prog.resolve(e.get('sig', ''), self.curtu())
            pts = [p['t'] for p in f.params] if f else e['pt']
            args = [self.arg(a, p) for a, p in zip(e['args'], pts)]
            return self.construct(t, e, args, e)
        return self.libctor(t, tt, e)

    def libctor(self, t, tt, e):
        a = [x for x in e['args'] if not x.get('dflt') and not (x['k'] == 'ctor' and x['cls'] in ('std::allocator', 'std::hash', 'std::equal_to'))]
        pts = e.get('pt', [])
        if t in VECS:
            if not a:
                return mkT('vlit', ())
            if a[0]['k'] in ('ilist', 'init'):
                return self.ev(a[0])
            if len(a) == 1 and isnumt(a[0].get('t', '')):
                et = targs(tt)
                return self.vfill(self.ev(a[0]), self.default(et[0]) if et else ZERO)
            if len(a) == 2 and isnumt(a[0].get('t', '')) and not 'iterator' in a[0].get('t', '') and not isptr(a[0].get('t', '')):
                n = self.ev(a[0])
                v = self.ev(a[1])
                et = targs(tt)
                if et and strip_cv(et[0]) == 'bool':
                    v = asbool(v)
                return self.vfill(n, v)
            if len(a) == 2:
                x, y = self.ev(a[0]), self.ev(a[1])
                return lift(self._range, [x, y])
            if len(a) == 1:
                return self.ev(a[0])
        if t in MAPS and t != 'std::bitset':
            d = self.default(tt)
            if not a or isnumt(a[0].get('t', '')):
                return d
            if a[0]['k'] in ('ilist', 'init'):
                v = self.ev(a[0])
                m = d
                isset = t.endswith('set')

                def bld(vv):
                    if vv.op != 'vlit':
                        return top('map init')
                    m = d
                    for x in vv.args:
                        m = store(m, x, x if ownorder(tt) else TRUE) if isset else store(m, fst(x), snd(x))
                    return m
                return lift(bld, [v])
            if len(a) >= 2:
                x, y = self.ev(a[0]), self.ev(a[1])
                return self.rangeinto(d, x, y, t, e)
            return self.ev(a[0])
        if t == 'std::bitset':
            if not a:
                return mkT('mempty', (FALSE,))
            v = self.ev(a[0])
            if v is ZERO:
                return mkT('mempty', (FALSE,))
            return app('bits', v)
        if t == 'std::pair':
            ta = targs(tt)
            if not a:
                return pair(*[self.default(x) for x in ta])
            if len(a) == 2:
                x, y = self.ev(a[0]), self.ev(a[1])
                if len(ta) == 2:
                    x = asbool(x) if strip_cv(ta[0]) == 'bool' else x
                    y = asbool(y) if strip_cv(ta[1]) == 'bool' else y
                return pair(x, y)
            return self.ev(a[0])
        if t in STRS or t == 'std::basic_string':
            if not a:
                return c('')
            if len(a) == 1:
                return self.ev(a[0])
            return app('strof', *[self.ev(x) for x in a])
        if t in OSTR:
            if a:
                v = self.ev(a[0])
                self.event('open', ('w', v), e)
                return mkT('ofs', (v, c('')))
            return c('')
        if t in ISTR:
            if a:
                v = self.ev(a[0])
                if t == 'std::basic_ifstream':
                    self.event('open', ('r', v), e)
                    return lift(lambda x: mkT('ifs', (x, ZERO)), [v])
                return lift(lambda x: mkT('iss', (x, ZERO)), [v])
            return mkT('ist', (c('unopened'),))
        if t == 'PsddParameter':
            if not a:
                return ZERO
            return app('exp', self.ev(a[0]))
        if t == '__gmp_expr':
            return fromword(self, a[0]) if a else ZERO
        if t == 'std::unique_ptr':
            return self.ev(a[0]) if a else NULL
        if t in ('std::allocator', 'std::hash', 'std::equal_to', 'std::less'):
            return c(t)
        if t == 'std::function':
            return self.ev(a[0]) if a else NULL
        if t == 'std::initializer_list':
            return mkT('vlit', ())
        vals = [self.ev(x) for x in a]
        self.notes.append('unmodelled ctor %s @%s' % (t, e.get('l')))
        return app('ext:' + t, *vals) if vals else mkT('ext:' + t, ())

    def rangeinto(self, base, x, y, t, e):
        cell = self.temp(base)
        isset = t.endswith('set')

        def put(k, l):
            v = self.rd(l)
            old = self.rd(cell)
            if isset:
                self.wr(cell, store(old, v, TRUE))
            else:
                h = has(old, fst(v))
                self.wr(cell, ite(h, old, store(old, fst(v), snd(v))))
        if not overrange(self, e, x, y, put):
            return app('setof', lift(self._range, [x, y]))
        return self.rd(cell)

    def vfill(self, n, v):
        def f(x):
            if isnum(x) and cval(x) <= 4 and False:
                return mkT('vlit', (v,) * int(cval(x)))
            if x is ZERO:
                return mkT('vlit', ())
            return mkT('vfill', (x, v))
        return lift(f, [n])

    def _range(self, x, y):
        if x.op == 'it' and y.op == 'it' and x.args[0] is y.args[0]:
            V = self.rd(x.args[0])
            if x.args[1] is ZERO and y.args[1] is size(V):
                return V
            return app('slice', V, x.args[1], y.args[1])
        if x.op == 'rit' and y.op == 'rit':
            V = self.rd(x.args[0])
            if x.args[1] is ZERO and y.args[1] is size(V):
                return app('rev', V)
        if x.op == 'nit' and y.op == 'mend' and x.args[1] is ZERO:
            return app('keys', x.args[2])
        return top('range')


# ==================================================================== library models
HOOKS = {}


def hook(*names):
    def d(f):
        for n in names:
            HOOKS[n] = f
        return f
    return d


def V(x):
    return ('val', x)


def containers(*ms):
    out = []
    for m in ms:
        for cn in ('std::vector', 'std::deque', 'std::queue', 'std::list', 'std::stack', 'std::basic_string', 'std::initializer_list'):
            out.append('%s::%s' % (cn, m))
    return out


def maps(*ms):
    return ['%s::%s' % (cn, m) for m in ms for cn in ('std::unordered_map', 'std::map', 'std::unordered_set', 'std::set')]


def ownorder(t):
    """sets whose elements are told apart by a comparator of their own"""
    if not isbag(t):
        return False
    a = targs(strip_cv(t))
    return any('std::less<' not in x and 'std::hash<' not in x and 'std::equal_to<' not in x and 'std::allocator<' not in x for x in a[1:])


def isbag(t):
    return tmpl(t) in ('std::unordered_set', 'std::set')


@hook(*(containers('size', 'length') + maps('size')))
def _h_size(m, e, obj, args, want):
    return V(size(m.ev(obj)))


@hook(*(containers('empty') + maps('empty')))
def _h_empty(m, e, obj, args, want):
    return V(compare('==', size(m.ev(obj)), ZERO))


def elval(m, e, a, obj):
    v = m.ev(a)
    ta = targs(obj.get('t', ''))
    if ta and strip_cv(ta[0]) == 'bool':
        v = asbool(v)
    return v


@hook(*containers('push_back', 'push', 'emplace'))
def _h_push(m, e, obj, args, want):
    v = elval(m, e, args[0], obj)
    lv = m.lv(obj)
    if tmpl(strip_cv(obj.get('t', ''))) in STRS:
        m.wr(lv, cat(m.rd(lv), lift(lambda x: c(chr(int(cval(x)))) if isnum(x) else mkT('chr', (x,)), [v])))
        return V(ZERO)
    m.wr(lv, cat(m.rd(lv), vl(v)))
    return V(ZERO)


def vl(v):
    return mkT('vlit', (v,))


@hook(*containers('emplace_back'))
def _h_eb(m, e, obj, args, want):
    ta = targs(obj.get('t', ''))
    if len(args) == 1:
        v = m.ev(args[0])
    elif len(args) == 2 and ta and tmpl(ta[0]) == 'std::pair':
        v = pair(m.ev(args[0]), m.ev(args[1]))
    elif not args and ta:
        v = m.default(ta[0])
    else:
        v = m.top('emplace_back', e)
    lv = m.lv(obj)
    m.wr(lv, cat(m.rd(lv), vl(v)))
    return V(ZERO)


@hook(*containers('push_front'))
def _h_pushf(m, e, obj, args, want):
    v = m.ev(args[0])
    lv = m.lv(obj)
    m.wr(lv, cat(vl(v), m.rd(lv)))
    return V(ZERO)


@hook('std::queue::pop', 'std::deque::pop_front', 'std::list::pop_front')
def _h_popf(m, e, obj, args, want):
    lv = m.lv(obj)
    m.wr(lv, app('drop1', m.rd(lv)))
    return V(ZERO)


@hook('std::stack::pop', 'std::vector::pop_back', 'std::deque::pop_back', 'std::list::pop_back', 'std::basic_string::pop_back')
def _h_popb(m, e, obj, args, want):
    lv = m.lv(obj)
    m.wr(lv, app('dropb', m.rd(lv)))
    return V(ZERO)


@hook(*containers('front'))
def _h_front(m, e, obj, args, want):
    lv = m.lv(obj)
    return ('lv', L_mk('L.idx', lv, ZERO))


@hook(*containers('back', 'top'))
def _h_back(m, e, obj, args, want):
    lv = m.lv(obj)
    n = size(m.rd(lv))
    return ('lv', L_mk('L.idx', lv, sub(n, ONE)))


@hook(*containers('operator[]', 'at'))
def _h_idx(m, e, obj, args, want):
    lv = m.lv(obj)
    i = m.ev(args[0])
    return ('lv', L_mk('L.idx', lv, i))


@hook(*(containers('clear')))
def _h_clear(m, e, obj, args, want):
    m.wr(m.lv(obj), mkT('vlit', ()) if tmpl(obj.get('t', '')) not in STRS else c(''))
    return V(ZERO)


@hook(*maps('clear'))
def _h_mclear(m, e, obj, args, want):
    m.wr(m.lv(obj), m.default(obj.get('t', '')))
    return V(ZERO)


@hook(*(containers('reserve', 'shrink_to_fit') + maps('reserve', 'rehash')))
def _h_nop(m, e, obj, args, want):
    for a in args:
        m.ev(a)
    return V(ZERO)


@hook(*containers('resize'))
def _h_resize(m, e, obj, args, want):
    n = m.ev(args[0])
    lv = m.lv(obj)
    ta = targs(obj.get('t', ''))
    d = m.ev(args[1]) if len(args) > 1 and not args[1].get('dflt') else (m.default(ta[0]) if ta else ZERO)
    if ta and strip_cv(ta[0]) == 'bool':
        d = asbool(d)

    def f(x):
        if x.op == 'vlit' and not x.args:
            return m.vfill(n, d)
        if size(x) is n:
            return x
        return app('resize', x, n, d)
    m.wr(lv, lift(f, [m.rd(lv)]))
    return V(ZERO)


@hook('std::vector::assign')
def _h_assign(m, e, obj, args, want):
    x, y = m.ev(args[0]), m.ev(args[1])
    if m.isit(x):
        v = lift(m._range, [x, y])
    else:
        v = m.vfill(x, y)
    m.wr(m.lv(obj), v)
    return V(ZERO)


@hook(*containers('begin', 'cbegin'))
def _h_begin(m, e, obj, args, want):
    return V(L_mk('it', m.lv(obj), ZERO))


@hook(*containers('end', 'cend'))
def _h_end(m, e, obj, args, want):
    lv = m.simp(m.lv(obj))
    return V(lift(lambda l, n: mkT('it', (l, n)), [lv, size(m.rd(lv))]))


@hook(*containers('rbegin', 'crbegin'))
def _h_rbegin(m, e, obj, args, want):
    return V(L_mk('rit', m.lv(obj), ZERO))


@hook(*containers('rend', 'crend'))
def _h_rend(m, e, obj, args, want):
    lv = m.simp(m.lv(obj))
    return V(lift(lambda l, n: mkT('rit', (l, n)), [lv, size(m.rd(lv))]))


@hook('std::vector::data')
def _h_data(m, e, obj, args, want):
    return V(lift(lambda l: mkT('ptr', (mkT('L.idx', (l, ZERO)),)), [m.lv(obj)]))


@hook('std::vector::flip')
def _h_flip(m, e, obj, args, want):
    lv = m.lv(obj)

    def f(x):
        n = m.nm('k')
        return mk_tab(size(x), n, bnot(asbool(sel(x, sym(n)))))
    m.wr(lv, lift(f, [m.rd(lv)]))
    return V(ZERO)


@hook('std::vector::erase', 'std::list::erase', 'std::vector::insert')
def _h_verase(m, e, obj, args, want):
    lv = m.lv(obj)
    vs = [m.ev(a) for a in args]
    if e['fn'].endswith('insert') and len(vs) in (2, 3):
        p = m.simp(vs[0])
        old = m.rd(lv)
        if p.op == 'it' and p.args[0] is m.simp(lv) and p.args[1] is size(old):
            if len(vs) == 2:
                m.wr(lv, cat(old, vl(vs[1])))
                return V(p)
            if m.isit(vs[1]):
                r = lift(m._range, [vs[1], vs[2]])
                m.wr(lv, cat(old, r))
                return V(p)
            m.wr(lv, cat(old, m.vfill(vs[1], vs[2])))
            return V(p)
    m.wr(lv, top(e['fn']))
    return V(app('ext:it', *vs))


# ---- iterators
ITC = ['__gnu_cxx::__normal_iterator', 'std::reverse_iterator', 'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator',
       'std::_Rb_tree_const_iterator', 'std::_Rb_tree_iterator', 'std::_List_iterator', 'std::_List_const_iterator', 'std::_Deque_iterator',
       'std::_Bit_iterator', 'std::_Bit_const_iterator', 'std::__detail::_Local_iterator']


@hook(*[i + '::operator*' for i in ITC])
def _h_ideref(m, e, obj, args, want):
    it = m.ev(obj)
    m.event('deref', it, e)
    return ('lv', m.derefv(it, e['t']))


@hook(*[i + '::operator->' for i in ITC])
def _h_iarrow(m, e, obj, args, want):
    it = m.ev(obj)
    m.event('deref', it, e)
    return V(lift(lambda l: mkT('ptr', (l,)) if l is not BOT else BOT, [m.derefv(it, e['t'])]))


@hook(*[i + '::operator++' for i in ITC])
def _h_iinc(m, e, obj, args, want):
    lv = m.lv(obj)
    old = m.rd(lv)
    m.wr(lv, m.advance(old, ONE))
    return V(old) if args else ('lv', lv)


@hook(*[i + '::operator--' for i in ITC])
def _h_idec(m, e, obj, args, want):
    lv = m.lv(obj)
    old = m.rd(lv)
    m.wr(lv, m.advance(old, c(-1)))
    return V(old) if args else ('lv', lv)


@hook(*[i + '::operator+=' for i in ITC])
def _h_iadd(m, e, obj, args, want):
    lv = m.lv(obj)
    m.wr(lv, m.advance(m.rd(lv), m.ev(args[0])))
    return ('lv', lv)


@hook(*([i + '::operator+' for i in ITC]))
def _h_iplus(m, e, obj, args, want):
    return V(m.advance(m.ev(obj), m.ev(args[0])))


@hook(*([i + '::operator-' for i in ITC]))
def _h_iminus(m, e, obj, args, want):
    return V(m.advance(m.ev(obj), neg(m.ev(args[0]))))


@hook(*([i + '::operator=' for i in ITC]))
def _h_iasg(m, e, obj, args, want):
    lv = m.lv(obj)
    m.wr(lv, m.ev(args[0]))
    return ('lv', lv)


@hook('std::next')
def _h_next(m, e, obj, args, want):
    v = m.ev(args[0])
    d = m.ev(args[1]) if len(args) > 1 and not args[1].get('dflt') else ONE
    return V(m.advance(v, d))


@hook('std::begin', 'std::cbegin')
def _h_sbegin(m, e, obj, args, want):
    return _h_begin(m, e, args[0], [], want) if tmpl(args[0].get('t', '')) not in MAPS else _h_mbegin(m, e, args[0], [], want)


@hook('std::end', 'std::cend')
def _h_send(m, e, obj, args, want):
    return _h_end(m, e, args[0], [], want) if tmpl(args[0].get('t', '')) not in MAPS else _h_mend(m, e, args[0], [], want)


def relop(m, e, obj, args, want):
    op = e['op']
    a, b = ([obj] if obj is not None else []) + list(args)
    x, y = m.ev(a), m.ev(b)
    return V(m.cmpop(op, x, y, a.get('t', ''), b.get('t', '')))


for _n in ('std::operator', '__gnu_cxx::operator', 'std::__detail::operator', 'std::_Bit_iterator_base::operator',
           'std::_Rb_tree_const_iterator::operator', 'std::_Rb_tree_iterator::operator', 'std::_List_iterator::operator', 'std::_List_const_iterator::operator',
           'std::bitset::operator'):
    for _o in ('==', '!=', '<', '>', '<=', '>='):
        HOOKS[_n + _o] = relop


@hook('__gnu_cxx::operator-')
def _h_itdiff(m, e, obj, args, want):
    x, y = m.ev(args[0]), m.ev(args[1])
    return V(m.binop('-', x, y, '', '', e))


# ---- maps
def mapkey(m, obj, a, k=None):
    """the key as the table keeps it"""
    k = m.ev(a) if k is None else k
    ta = targs(strip_cv(obj.get('t', '')))
    return m.narrowed(k, strip_cv(ta[0])) if ta else k


@hook(*maps('find'))
def _h_find(m, e, obj, args, want):
    k = mapkey(m, obj, args[0])
    own = (c('own'),) if ownorder(obj.get('t', '')) else ()
    return V(lift(lambda l, kk: mkT('mit', (l, kk) + own), [m.simp(m.lv(obj)), k]))


@hook(*maps('count', 'contains'))
def _h_count(m, e, obj, args, want):
    k = mapkey(m, obj, args[0])
    h = has(m.ev(obj), k)
    return V(h if e['fn'].endswith('contains') else ite(h, ONE, ZERO))


@hook(*maps('begin', 'cbegin'))
def _h_mbegin(m, e, obj, args, want):
    lv = m.lv(obj)
    return V(lift(lambda l, M0: mkT('nit', (l, ZERO, M0)), [lv, m.rd(lv)]))


@hook(*maps('end', 'cend'))
def _h_mend(m, e, obj, args, want):
    return V(lift(lambda l: mkT('mend', (l,)), [m.lv(obj)]))


@hook('std::unordered_map::operator[]', 'std::map::operator[]', 'std::unordered_map::at', 'std::map::at')
def _h_midx(m, e, obj, args, want):
    lv = m.lv(obj)
    k = mapkey(m, obj, args[0])
    ta = targs(strip_cv(obj.get('t', '')))
    if e['fn'].endswith('operator[]') and lv.op == 'L.fld' and len(ta) > 1:
        # reading an entry that is not there makes the default one
        d = NULL if isptr(ta[1]) else ZERO if strip_cv(ta[1]) in UNS or strip_cv(ta[1]) in REAL or strip_cv(ta[1]) in INTT else None
        if d is not None:
            TT.MAPDEF['fld:' + lv.args[1]] = d
    return ('lv', L_mk('L.key', lv, k))


@hook(*maps('insert', 'emplace', 'insert_or_assign', 'try_emplace'))
def _h_minsert(m, e, obj, args, want):
    lv = m.lv(obj)
    t = obj.get('t', '')
    if isbag(t):
        if len(args) == 2:
            return _h_ins2(m, e, lv, args)
        k = mapkey(m, obj, args[0])
        v = TRUE
    elif len(args) == 1:
        p = m.ev(args[0])
        k, v = mapkey(m, obj, None, fst(p)), snd(p)
    elif len(args) == 2 and m.isit(m.ev(args[0])):
        return _h_ins2(m, e, lv, args)
    else:
        k, v = mapkey(m, obj, args[0]), m.ev(args[1])
    old = m.rd(lv)
    h = has(old, k)
    if e['fn'].endswith('insert_or_assign'):
        m.wr(lv, store(old, k, v))
    elif isbag(t) and not ownorder(t):
        # a member put in again changes nothing: whether the caller asked first does not matter
        pc = m.S.pc
        if h.op == 'ite' and all(isc(x) for x in h.args[1:]):
            m.S.pc = cof(pc, h.args[0], 0 if h.args[1] is FALSE else 1)
        m.wr(lv, store(old, k, TRUE))
        m.S.pc = pc
    else:
        if ownorder(t):
            v = k
        m.wr(lv, ite(h, old, store(old, k, v)))
    own = (c('own'),) if ownorder(t) else ()
    return V(pair(lift(lambda l, kk: mkT('mit', (l, kk) + own), [lv, k]), bnot(h)))


def _h_ins2(m, e, lv, args):
    x, y = m.ev(args[0]), m.ev(args[1])
    t = strip_cv(e['obj'].get('t', '')) if e.get('obj') else ''
    isset = tmpl(t).endswith('set')

    def put(k, l):
        v = m.rd(l)
        old = m.rd(lv)
        if isset:
            m.wr(lv, store(old, v, TRUE))
        else:
            m.wr(lv, ite(has(old, fst(v)), old, store(old, fst(v), snd(v))))
    if not t or not overrange(m, e, x, y, put):
        m.wr(lv, app('setunion', m.rd(lv), lift(m._range, [x, y])))
    return V(ZERO)


@hook(*maps('erase'))
def _h_merase(m, e, obj, args, want):
    lv = m.lv(obj)
    k = m.ev(args[0])

    def keyof(x):
        if x.op == 'mit':
            return x.args[1]
        if x.op == 'nit':
            return mkT('mkey', (x.args[2], x.args[1]))
        return x
    kk = lift(keyof, [k])
    m.event('erase', kk, e)
    m.wr(lv, app('erase', m.rd(lv), kk))
    if any(x.op in ('nit', 'itadd') or x.op == 'sym' and str(x.args[0]).startswith('c!') for x in leaves(k)) and 'iterator' in args[0].get('t', ''):
        return V(m.advance(k, ONE))
    return V(ONE)


def _erase(x, k):
    if x.op == 'mempty':
        return x
    return mkT('erase', (x, k))


SIMP['erase'] = _erase


def _sel_erase(x, k):
    if x.op == 'erase':
        if x.args[1] is k:
            return None
        if distinct(x.args[1], k):
            return sel(x.args[0], k)
    return None


TT.SELHOOK.append(_sel_erase)


# ---- bitset
@hook('std::bitset::operator[]', 'std::bitset::test')
def _h_bidx(m, e, obj, args, want):
    return ('lv', L_mk('L.idx', m.lv(obj), m.ev(args[0])))


@hook('std::bitset::reference::operator bool', 'std::_Bit_reference::operator bool')
def _h_brb(m, e, obj, args, want):
    return V(asbool(m.ev(obj)))


@hook('std::bitset::reference::operator~')
def _h_brn(m, e, obj, args, want):
    return V(bnot(asbool(m.ev(obj))))


@hook('std::bitset::reference::operator=', 'std::_Bit_reference::operator=')
def _h_bra(m, e, obj, args, want):
    v = asbool(m.ev(args[0]))
    lv = m.lv(obj)
    m.wr(lv, v)
    return ('lv', lv)


@hook('std::bitset::set')
def _h_bset(m, e, obj, args, want):
    lv = m.lv(obj)
    a = [x for x in args if not x.get('dflt')]
    if not a:
        m.wr(lv, app('allset', m.rd(lv)))
        return ('lv', lv)
    i = m.ev(a[0])
    v = asbool(m.ev(a[1])) if len(a) > 1 else TRUE
    m.wr(L_mk('L.idx', lv, i), v)
    return ('lv', lv)


@hook('std::bitset::reset')
def _h_breset(m, e, obj, args, want):
    lv = m.lv(obj)
    if args:
        m.wr(L_mk('L.idx', lv, m.ev(args[0])), FALSE)
    else:
        m.wr(lv, mkT('mempty', (FALSE,)))
    return ('lv', lv)


@hook('std::bitset::none', 'std::bitset::any')
def _h_bnone(m, e, obj, args, want):
    v = asbool(app('bs:none', m.ev(obj)))
    return V(v if e['fn'].endswith('none') else bnot(v))


SIMP['bs:none'] = lambda x: TRUE if x.op == 'mempty' else mkT('bs:none', (x,))


@hook('std::bitset::flip')
def _h_bflip(m, e, obj, args, want):
    lv = m.lv(obj)
    if args:
        l2 = L_mk('L.idx', lv, m.ev(args[0]))
        m.wr(l2, bnot(asbool(m.rd(l2))))
        return ('lv', lv)
    m.wr(lv, top('flip'))
    return ('lv', lv)


# ---- pairs, moves, misc
@hook('std::make_pair')
def _h_mkpair(m, e, obj, args, want):
    x, y = m.ev(args[0]), m.ev(args[1])
    return V(pair(x, y))


@hook('std::move', 'std::forward', 'std::ref', 'std::cref', 'std::as_const')
def _h_move(m, e, obj, args, want):
    return ('lv', m.lv(args[0]))


@hook('std::swap')
def _h_swap(m, e, obj, args, want):
    a, b = m.lv(args[0]), m.lv(args[1])
    x, y = m.rd(a), m.rd(b)
    m.wr(a, y)
    m.wr(b, x)
    return V(ZERO)


def unbounded(v):
    return any(x.op in ('recur', 'mu', 'self', 'sum1', 'sum', 'prod', 'word', 'first') for x in subterms(v)) or v.op == 'poly' and any(len(m) > 1 for m in TT.poly_of(v))


def fromword(m, e):
    """machine integers assigned to an arbitrary-precision number"""
    v = m.ev(e)
    if strip_cv(e.get('t', '')) not in INTT:
        return v

    def f(x):
        if x.op == 'word':
            return ite(compare('<=', x.args[0], c(2 ** 64 - 1)), x.args[0], x)
        if unbounded(x):
            return app('wrap64', x)
        return x
    return lift(f, [v])


@hook('__gmp_expr::get_ui', 'mpz_get_ui', '__gmpz_get_ui')
def _h_getui(m, e, obj, args, want):
    return V(app('word', m.ev(obj) if obj is not None else m.rd(m.obj(m.ev(args[0]), MPZ))))


@hook('__gmp_expr::fits_ulong_p', 'mpz_fits_ulong_p', '__gmpz_fits_ulong_p')
def _h_fits(m, e, obj, args, want):
    return V(compare('<=', m.ev(obj) if obj is not None else m.rd(m.obj(m.ev(args[0]), MPZ)), c(2 ** 64 - 1)))


def asgop(m, e, obj, args, want):
    lv = m.lv(obj)
    v = fromword(m, args[0]) if e.get('fn', '').startswith('__gmp_expr') else m.ev(args[0])
    m.wr(lv, v)
    return ('lv', lv)


for _n in ('std::vector', 'std::set', 'std::unordered_set', 'std::unordered_map', 'std::map', 'std::pair', 'std::basic_string', '__gmp_expr',
           'std::deque', 'std::list', 'std::queue', 'std::bitset', 'PsddParameter'):
    HOOKS[_n + '::operator='] = asgop


@hook('std::unique_ptr::operator->', 'std::unique_ptr::get')
def _h_upget(m, e, obj, args, want):
    return V(m.ev(obj))


@hook('std::unique_ptr::operator*')
def _h_upderef(m, e, obj, args, want):
    return ('lv', m.derefv(m.ev(obj), e['t']))


@hook('abs', 'std::abs', 'labs', 'llabs', 'fabs', 'std::fabs')
def _h_abs(m, e, obj, args, want):
    v = m.ev(args[0])
    if isrealt(e.get('t', '')):
        return V(app('abs', v))
    return V(lift(lambda x: x if nonneg(x) else ite(compare('<', x, ZERO), neg(x), x), [v]))


@hook('std::min', 'std::max')
def _h_min(m, e, obj, args, want):
    x, y = m.ev(args[0]), m.ev(args[1])
    lt = m.cmpop('<', y, x, args[0].get('t', ''), args[1].get('t', ''))
    return V(ite(lt, y, x) if e['fn'].endswith('min') else ite(m.cmpop('<', x, y, args[0].get('t', ''), args[1].get('t', '')), y, x))


@hook('log', 'std::log', 'exp', 'std::exp')
def _h_log(m, e, obj, args, want):
    return V(app(e['fn'].split('::')[-1], m.ev(args[0])))


@hook('log1p', 'std::log1p')
def _h_log1p(m, e, obj, args, want):
    return V(app('log', add(ONE, m.ev(args[0]))))


@hook('expm1', 'std::expm1')
def _h_expm1(m, e, obj, args, want):
    return V(sub(app('exp', m.ev(args[0])), ONE))


@hook('pow', 'std::pow')
def _h_pow(m, e, obj, args, want):
    x, y = m.ev(args[0]), m.ev(args[1])

    def f(a, b):
        if isnum(a) and isnum(b) and b.args[0] >= 0 and b.args[0] == int(b.args[0]):
            return c(Fraction(a.args[0]) ** int(b.args[0]))
        return mkT('pow', (a, b))
    return V(lift(f, [x, y]))


@hook('std::numeric_limits::infinity')
def _h_inf(m, e, obj, args, want):
    return V(mkT('inf', ()))


@hook('std::isinf', 'isinf', 'std::isnan', 'isnan')
def _h_isinf(m, e, obj, args, want):
    return V(asbool(app(e['fn'].split('::')[-1], m.ev(args[0]))))


@hook('std::hash::operator()')
def _h_hash(m, e, obj, args, want):
    return V(app('hash', m.ev(args[0])))


@hook('std::reverse')
def _h_reverse(m, e, obj, args, want):
    x, y = m.ev(args[0]), m.ev(args[1])

    def go(a, b):
        if a.op == 'it' and b.op == 'it' and a.args[0] is b.args[0]:
            Vv = m.rd(a.args[0])
            if a.args[1] is ZERO and b.args[1] is size(Vv):
                m.wr(a.args[0], app('rev', Vv))
                return TRUE
        m.wr(a.args[0], top('reverse')) if a.op == 'it' else None
        return FALSE
    for _, lf in m.cases(x):
        go(lf, y)
    return V(ZERO)


@hook('std::sort', 'std::stable_sort')
def _h_sort(m, e, obj, args, want):
    x, y = m.ev(args[0]), m.ev(args[1])
    if x.op != 'it':
        return None
    lam = c('<')
    if len(args) > 2:
        f = m.ev(args[2])
        if f.op == 'lamref':
            a, b = m.nm('s'), m.nm('s')
            r0, m.rec = m.rec, False
            r = m.lamcall(f, [('val', sym(a)), ('val', sym(b))])
            m.rec = r0
            lam = mk_lam((a, b), r)
        else:
            lam = f
    Vv = m.rd(x.args[0])
    m.wr(x.args[0], app('sort', Vv, lam))
    return V(ZERO)


def _sort(v, lam):
    """sorting a tabulated list is sorting its positions by the keys found there"""
    if v.op == 'tab' and lam.op == 'lam' and v.args[2] is not sym(v.args[1]):
        n, nm, body = v.args
        (a, b), cmp_ = lam.args
        A, B = sym('s!1'), sym('s!2')
        key = lambda z: subst(body, {sym(nm): z})
        l2 = mk_lam(('s!1', 's!2'), subst(cmp_, {sym(a): key(A), sym(b): key(B)}))
        perm = mkT('sort', (mk_tab(n, 'k!s', sym('k!s')), l2))
        return mk_tab(n, 'k!s', subst(body, {sym(nm): sel(perm, sym('k!s'))}))
    return mkT('sort', (v, lam))


def _bitop(op, f, unit):
    def go(*xs):
        k, rest = unit, []
        for x in xs:
            if isc(x) and isinstance(cval(x), (int, Fraction)) and not isinstance(cval(x), bool) and cval(x) == int(cval(x)):
                k = f(k, int(cval(x)))
            else:
                rest.append(x)
        if not rest or op == 'bit&' and k == 0:
            return c(k)
        xs = rest + ([c(k)] if k != unit else [])
        return xs[0] if len(xs) == 1 else mkT(op, tuple(sorted(xs, key=lambda z: z.id)))
    return go


for _op, _f, _u in (('bit&', lambda a, b: a & b, -1), ('bit|', lambda a, b: a | b, 0), ('bit^', lambda a, b: a ^ b, 0)):
    SIMP[_op] = _bitop(_op, _f, _u)


def _small(x):
    return isc(x) and not isinstance(cval(x), (bool, str)) and cval(x) is not None and cval(x) == int(cval(x)) and abs(cval(x)) < 2 ** 30


SIMP['bnot'] = lambda x: c(~int(cval(x))) if _small(x) else mkT('bnot', (x,))
SIMP['shl'] = lambda x, y: c(int(cval(x)) << int(cval(y))) if _small(x) and _small(y) and 0 <= cval(y) < 31 and 0 <= cval(x) and cval(x) << int(cval(y)) < 2 ** 31 else mkT('shl', (x, y))


SIMP['sort'] = _sort


def _isnew(a, b):
    # an object under construction is not among the things it is made from
    for x, y in ((a, b), (b, a)):
        if x.op == 'sym' and x.args[0] == 'nn:new' and 'nn:new' not in y.free:
            return True
    return False


TT.DISTINCT.append(_isnew)


@hook('std::accumulate')
def _h_accum(m, e, obj, args, want):
    x, y = m.ev(args[0]), m.ev(args[1])
    i0 = m.ev(args[2])
    if len(args) > 3:
        f = callee(m, args[3])
        if f is None:
            return None
        acc = m.temp(i0)
        if not overrange(m, e, x, y, lambda k, l: m.wr(acc, f([('val', m.rd(acc)), ('lv', l)]))):
            return None
        return V(m.rd(acc))
    Vv = lift(m._range, [x, y])
    n = m.nm('k')
    return V(add(i0, mk_sum(size(Vv), n, sel(Vv, sym(n)))))


def span(m, x, y):
    """(number of elements, position -> element place) of an iterator range, or None"""
    if x.op == 'it' and y.op == 'it' and x.args[0] is y.args[0]:
        return sub(y.args[1], x.args[1]), lambda k: mkT('L.idx', (x.args[0], add(x.args[1], k)))
    if x.op == 'rit' and y.op == 'rit' and x.args[0] is y.args[0]:
        last = sub(size(m.rd(x.args[0])), ONE)
        return sub(y.args[1], x.args[1]), lambda k: mkT('L.idx', (x.args[0], sub(sub(last, x.args[1]), k)))
    if x.op == 'nit' and y.op == 'mend' and x.args[0] is y.args[0] and x.args[1] is ZERO:
        M0 = x.args[2]
        return mkT('size', (M0,)), lambda k: mkT('L.mit', (x.args[0], mkT('mkey', (M0, k))))
    return None


def overrange(m, e, x, y, f):
    """f(position, place) for every element in order, as a loop"""
    x, y = m.simp(x), m.simp(y)
    r = span(m, x, y)
    if r is None or r[0].op == 'ite':
        return False
    n, at = r
    cell = {}

    def pre(k):
        cell['k'] = k
    m.loop(None, dict(k='pycall', f=lambda: f(cell['k'], at(cell['k']))), None, e, rng=(n, pre))
    return True


def callee(m, a):
    f = m.ev(a)
    if f.op == 'lamref':
        return lambda av: m.lamcall(f, av)
    return None


@hook('std::for_each')
def _h_foreach(m, e, obj, args, want):
    x, y = m.ev(args[0]), m.ev(args[1])
    f = callee(m, args[2])
    if f is None or not overrange(m, e, x, y, lambda k, l: f([('lv', l)])):
        return None
    return V(m.ev(args[2]))


@hook('std::fill')
def _h_fill(m, e, obj, args, want):
    x, y = m.ev(args[0]), m.ev(args[1])
    v = m.ev(args[2])
    if 'bool' in args[0].get('t', '') or 'Bit' in args[0].get('t', ''):
        v = asbool(v)
    sx = m.simp(x)
    if sx.op == 'it' and sx.args[1] is ZERO and m.simp(y).op == 'it' and m.simp(y).args[1] is size(m.rd(sx.args[0])):
        m.wr(sx.args[0], m.vfill(size(m.rd(sx.args[0])), v))
        return V(ZERO)
    if not overrange(m, e, x, y, lambda k, l: m.wr(l, v)):
        return None
    return V(ZERO)


@hook('std::iota')
def _h_iota(m, e, obj, args, want):
    x, y = m.ev(args[0]), m.ev(args[1])
    v = m.ev(args[2])
    if not overrange(m, e, x, y, lambda k, l: m.wr(l, add(v, k))):
        return None
    return V(ZERO)


@hook('std::back_inserter')
def _h_backins(m, e, obj, args, want):
    return V(lift(lambda l: mkT('bins', (l,)), [m.simp(m.lv(args[0]))]))


@hook('std::inserter')
def _h_ins(m, e, obj, args, want):
    return V(lift(lambda l: mkT('sins' if tmpl(args[0].get('t', '')) in MAPS else 'xins', (l,)), [m.simp(m.lv(args[0]))]))


def sink(m, d, k, v):
    if d.op == 'bins':
        m.wr(d.args[0], cat(m.rd(d.args[0]), vl(v)))
    elif d.op == 'sins':
        m.wr(d.args[0], store(m.rd(d.args[0]), v, TRUE))
    else:
        m.wr(mkT('L.idx', (d.args[0], add(d.args[1], k))), v)


def sinkok(d):
    return d.op in ('bins', 'sins', 'it')


@hook('std::copy', 'std::copy_if')
def _h_copy(m, e, obj, args, want):
    x, y, d = m.ev(args[0]), m.ev(args[1]), m.simp(m.ev(args[2]))
    cond = callee(m, args[3]) if len(args) > 3 else None
    if not sinkok(d) or (len(args) > 3 and (cond is None or d.op == 'it')):
        return None

    def step(k, l):
        v = m.rd(l)
        if cond is None:
            sink(m, d, k, v)
            return
        t = asbool(cond([('lv', l)]))
        pc = m.S.pc
        m.S.pc = band(pc, t)
        sink(m, d, k, v)
        m.S.pc = pc
    if not overrange(m, e, x, y, step):
        return None
    return V(mkT('undef', ('iterator',)))


@hook('std::transform')
def _h_transform(m, e, obj, args, want):
    x, y = m.ev(args[0]), m.ev(args[1])
    two = len(args) == 5
    x2 = m.simp(m.ev(args[2])) if two else None
    d = m.simp(m.ev(args[3 if two else 2]))
    f = callee(m, args[-1])
    if f is None or not sinkok(d) or (two and x2.op != 'it'):
        return None

    def step(k, l):
        av = [('lv', l)]
        if two:
            av.append(('lv', mkT('L.idx', (x2.args[0], add(x2.args[1], k)))))
        sink(m, d, k, f(av))
    if not overrange(m, e, x, y, step):
        return None
    return V(mkT('undef', ('iterator',)))


@hook('std::count_if', 'std::count')
def _h_countif(m, e, obj, args, want):
    x, y = m.ev(args[0]), m.ev(args[1])
    Vv = lift(m._range, [x, y])
    n = m.nm('k')
    if e['fn'].endswith('_if'):
        f = callee(m, args[2])
        if f is None:
            return None
        r = asbool(f([('val', sel(Vv, sym(n)))]))
    else:
        w = m.ev(args[2])
        r = asbool(app('eq', sel(Vv, sym(n)), w)) if args[2].get('t', '') != 'bool' else asbool(sel(Vv, sym(n)))
        if args[2].get('t', '') == 'bool' and w is FALSE:
            r = bnot(r)
    return V(mk_sum(size(Vv), n, ite(r, ONE, ZERO)))


def quant(m, e, args, neg_):
    x, y = m.ev(args[0]), m.ev(args[1])
    Vv = lift(m._range, [x, y])
    f = m.ev(args[2])
    if f.op != 'lamref':
        return None
    n = m.nm('k')
    r = asbool(m.lamcall(f, [('val', sel(Vv, sym(n)))]))
    return mk_exists(size(Vv), n, bnot(r) if neg_ else r)


@hook('std::any_of', 'std::none_of', 'std::all_of')
def _h_anyof(m, e, obj, args, want):
    fn = e['fn'].split('::')[-1]
    r = quant(m, e, args, fn == 'all_of')
    if r is None:
        return None
    return V(r if fn == 'any_of' else bnot(r))


# ---- strings and output
@hook('std::to_string')
def _h_tostr(m, e, obj, args, want):
    t = strip_cv(args[0].get('t', ''))
    return V(app('strd' if t in REAL else 'str', m.narrowed(m.ev(args[0]), t, 'double' if t == 'float' else '')))


@hook('std::operator+')
def _h_splus(m, e, obj, args, want):
    def s(a):
        v = m.ev(a)
        if strip_cv(a.get('t', '')) == 'char':
            return lift(lambda x: c(chr(int(cval(x)))) if isnum(x) else mkT('chr', (x,)), [v])
        return v
    if 'iterator' in args[0].get('t', ''):
        return V(m.advance(m.ev(args[0]), m.ev(args[1])))
    x = s(args[0])
    return V(cat(x, s(args[1])))


@hook('std::basic_string::operator+=', 'std::basic_string::append')
def _h_sadd(m, e, obj, args, want):
    if len([a for a in args if not a.get('dflt')]) != 1:
        return None
    v = m.ev(args[0])
    if strip_cv(args[0].get('t', '')) == 'char':
        v = lift(lambda x: c(chr(int(cval(x)))) if isnum(x) else mkT('chr', (x,)), [v])
    lv = m.lv(obj)
    m.wr(lv, cat(m.rd(lv), v))
    return ('lv', lv)


@hook('std::basic_string::c_str', 'std::basic_string::str', 'std::basic_string::data')
def _h_cstr(m, e, obj, args, want):
    return V(m.ev(obj))


@hook('std::basic_string::substr')
def _h_substr(m, e, obj, args, want):
    v = m.ev(obj)
    a = [m.ev(x) for x in args]
    n = c('npos') if len(a) < 2 or args[1].get('g') or args[1].get('dflt') or args[1].get('n') == 'npos' else a[1]
    return V(app('substr', v, a[0] if a else ZERO, n))


@hook('std::basic_string::find')
def _h_sfind(m, e, obj, args, want):
    return V(app('sfind', m.ev(obj), *[m.ev(a) for a in args if not a.get('dflt')]))


@hook('std::stoi', 'std::stol', 'std::stoul', 'std::stoull', 'std::stod', 'atoi', 'atof', 'strtod', 'strtol', 'std::strtod')
def _h_stoi(m, e, obj, args, want):
    vs = [m.ev(a) for a in args if not a.get('dflt')]
    n = e['fn'].split('::')[-1]
    if n.startswith('strto') and len(vs) > 1 and vs[1] is not NULL:
        m.reach(vs[1], n)
    return V(app('num:' + {'atoi': 'stoi', 'atof': 'stod', 'strtod': 'stod'}.get(n, n), vs[0]))


def fmt(m, a):
    v = m.ev(a)
    t = strip_cv(a.get('t', ''))
    if t == 'char':
        return lift(lambda x: c(chr(int(cval(x)))) if isnum(x) else mkT('chr', (x,)), [v])
    if t in INTT:
        return app('str', v)
    if t in REAL:
        return app('osd', v)
    if t == 'bool':
        return app('str', ite(v, ONE, ZERO))
    if a['k'] == 'fnref':
        return c('\n') if a['fn'].endswith('endl') else c('')
    return v


@hook('std::basic_ostream::operator<<', 'std::operator<<')
def _h_out(m, e, obj, args, want):
    if obj is None:
        obj, args = args[0], args[1:]
    lv = m.lv(obj)
    v = fmt(m, args[0])
    old = m.rd(lv)

    def f(o, x):
        if o.op == 'ofs':
            return mkT('ofs', (o.args[0], cat(o.args[1], x)))
        return cat(o, x)
    m.wr(lv, lift(f, [old, v]))
    return ('lv', lv)


@hook('std::endl', 'std::flush')
def _h_endl(m, e, obj, args, want):
    return ('lv', m.lv(args[0]))


@hook('std::basic_ofstream::open', 'std::basic_ifstream::open')
def _h_open(m, e, obj, args, want):
    v = m.ev(args[0])
    lv = m.lv(obj)
    w = 'ofs' if 'ofstream' in e['fn'] else 'ifs'
    m.event('open', (w, v), e)
    m.wr(lv, lift(lambda x: mkT('ofs', (x, c(''))) if w == 'ofs' else mkT('ifs', (x, ZERO)), [v]))
    return V(ZERO)


@hook('std::basic_ofstream::close', 'std::basic_ifstream::close')
def _h_close(m, e, obj, args, want):
    lv = m.lv(obj)
    m.event('close', m.rd(lv), e)
    if 'ofstream' in e['fn']:
        o = m.rd(lv)
        k = 'file:written'
        m.S.v[k] = ite(m.S.pc, cat(m.S.v.get(k, mkT('vlit', ())), vl(o)), m.S.v.get(k, mkT('vlit', ())))
    return V(ZERO)


def streamok(x):
    return lift(lambda s: FALSE if s.op == 'issf' else asbool(mkT('streamok', (s,))), [x])


TT.REBUILD['streamok'] = lambda x, go: streamok(go(x.args[0]))


@hook('std::basic_ios::operator bool', 'std::basic_ios::operator!', 'std::basic_ios::fail', 'std::basic_ios::good', 'std::basic_ifstream::is_open',
      'std::basic_ofstream::is_open', 'std::basic_ios::bad', 'std::basic_ios::eof')
def _h_ios(m, e, obj, args, want):
    v = m.ev(obj)
    m.event('checkstream', v, e)
    n = e['fn'].split('::')[-1]

    def f(x):
        if x.op == 'lnres':
            return asbool(mkT('lnok', x.args))
        return streamok(x)
    r = lift(f, [v])
    return V(bnot(r) if n in ('operator!', 'fail', 'bad', 'eof') else r)


@hook('std::getline')
def _h_getline(m, e, obj, args, want):
    slv = m.lv(args[0])
    st = m.rd(slv)
    lv = m.lv(args[1])
    delim = m.ev(args[2]) if len(args) > 2 and not args[2].get('dflt') else c(10)

    def pos(x):
        if x.op in ('ifs', 'iss', 'advln'):
            return x.args
        return (x, ZERO)

    def line(x):
        return mkT('ln', pos(x)) if x.op != 'top' else top('getline')

    def adv(x):
        a, b = pos(x)
        return mkT(x.op if x.op in ('ifs', 'iss') else 'advln', (a, add(b, ONE))) if x.op != 'top' else top('getline')

    def res(x):
        return mkT('lnres', pos(x)) if x.op != 'top' else top('getline')
    if delim is not c(10):
        m.wr(lv, top('getline'))
        m.wr(slv, top('getline'))
        return V(top('getline'))
    r = lift(res, [st])
    m.wr(lv, lift(line, [st]))
    m.wr(slv, lift(adv, [st]))
    return V(r)


@hook('std::basic_istream::operator>>', 'std::operator>>')
def _h_in(m, e, obj, args, want):
    if obj is None:
        if len(args) != 2 or 'stream' not in args[0].get('t', ''):
            return None
        obj, args = args[0], args[1:]
    lv = m.lv(obj)
    st = m.rd(lv)
    t = strip_cv(args[0].get('t', ''))
    tlv = m.lv(args[0])
    kind = 'rdu' if t in UNS else ('rdf' if t in REAL else ('rds' if tmpl(t) in STRS else 'rdi'))
    m.event('extract', (st, t), e)

    def pos(x):
        if x.op in ('ifs', 'iss', 'advln'):
            return x.args
        return (x, ZERO)

    def tok(x):
        return mkT('undef', ('unread',)) if x.op == 'issf' else mkT(kind, pos(x)) if x.op != 'top' else top('>>')

    def adv(x):
        a, b = pos(x)
        if x.op == 'issf':
            return x
        return mkT(x.op if x.op in ('ifs', 'iss') else 'advln', (a, add(b, ONE))) if x.op != 'top' else top('>>')
    m.wr(tlv, lift(tok, [st]))
    m.wr(lv, lift(adv, [st]))
    return ('lv', lv)


@hook('std::basic_istringstream::str', 'std::basic_stringstream::str', 'std::basic_ostringstream::str')
def _h_str(m, e, obj, args, want):
    lv = m.lv(obj)
    if args:
        v = m.ev(args[0])
        if 'istringstream' in e['fn']:
            # new text does not make a failed stream good again
            ok = streamok(m.rd(lv)) if m.rd(lv).op not in ('ist', 'undef', 'top') else TRUE
            m.wr(lv, ite(ok, lift(lambda x: mkT('iss', (x, ZERO)), [v]), lift(lambda x: mkT('issf', (x,)), [v])))
        else:
            m.wr(lv, v)
        return V(ZERO)
    return V(m.rd(lv))


@hook('std::basic_ios::clear')
def _h_clear(m, e, obj, args, want):
    for a in args:
        m.ev(a)
    lv = m.lv(obj)
    v = m.rd(lv)
    if any(x.op == 'issf' for x in leaves(v)):
        m.wr(lv, lift(lambda x: mkT('iss', (x.args[0], ZERO)) if x.op == 'issf' else x, [v]))
    return V(ZERO)


@hook('std::ios_base::width', 'std::ios_base::precision')
def _h_ignore(m, e, obj, args, want):
    for a in args:
        m.ev(a)
    return V(ZERO)


# ---- C
@hook('free', 'sdd_vtree_free', 'sdd_manager_free')
def _h_free(m, e, obj, args, want):
    v = m.ev(args[0])
    m.event('free', v, e)
    return V(ZERO)


@hook('exit', 'abort', 'std::exit', '_exit', 'std::abort', 'std::terminate')
def _h_exit(m, e, obj, args, want):
    v = m.ev(args[0]) if args else c('abort')
    m.die(lift(lambda x: mkT('exit', (x,)), [v]) if args else mkT('abort', ()))
    return V(ZERO)


@hook('__gmpz_mul')
def _h_gmul(m, e, obj, args, want):
    a = [m.ev(x) for x in args]
    m.wr(m.obj(a[0], MPZ), mul(m.rd(m.obj(a[1], MPZ)), m.rd(m.obj(a[2], MPZ))))
    return V(ZERO)


@hook('__gmpz_add')
def _h_gadd(m, e, obj, args, want):
    a = [m.ev(x) for x in args]
    m.wr(m.obj(a[0], MPZ), add(m.rd(m.obj(a[1], MPZ)), m.rd(m.obj(a[2], MPZ))))
    return V(ZERO)


@hook('__gmpz_addmul')
def _h_gaddmul(m, e, obj, args, want):
    a = [m.ev(x) for x in args]
    o = m.obj(a[0], MPZ)
    m.wr(o, add(m.rd(o), mul(m.rd(m.obj(a[1], MPZ)), m.rd(m.obj(a[2], MPZ)))))
    return V(ZERO)


@hook('__gmp_expr::get_mpz_t')
def _h_getmpz(m, e, obj, args, want):
    return V(m.addr(m.lv(obj)))


def gmpop(op):
    def f(m, e, obj, args, want):
        if obj is not None and op.endswith('='):
            lv = m.lv(obj)
            m.wr(lv, m.binop(op[:-1], m.rd(lv), fromword(m, args[0]), 'int', 'int', e))
            return ('lv', lv)
        a = ([obj] if obj is not None else []) + list(args)
        return V(m.binop(op, fromword(m, a[0]), fromword(m, a[1]), 'int', 'int', e))
    return f


for _o in ('+', '*', '-'):
    HOOKS['operator' + _o] = gmpop(_o)
for _o in ('+=', '*=', '-='):
    HOOKS['__gmp_expr::operator' + _o] = gmpop(_o)


# ---- SDD library: pure functions of their arguments
def pure(term, *keep):
    def f(m, e, obj, args, want):
        vs = [m.ev(a) for a in args]
        if keep:
            vs = [vs[i] for i in keep]
        m.event('sdd', (e['fn'], vs), e)
        return V(app(term, *vs))
    return f


for _n, _t in (('sdd_vtree_left', 'vt:left'), ('sdd_vtree_right', 'vt:right'), ('sdd_vtree_var', 'vt:var'), ('sdd_vtree_position', 'vt:pos'),
               ('sdd_vtree_parent', 'vt:parent'), ('sdd_vtree_lca', 'vt:lca'), ('sdd_vtree_var_count', 'vt:count'), ('new_leaf_vtree', 'newleaf'),
               ('new_internal_vtree', 'newint'), ('sdd_manager_literal', 'sdd_lit'), ('sdd_manager_true', 'sdd_true'),
               ('sdd_manager_false', 'sdd_false'), ('sdd_id', 'sdd:id'), ('sdd_node_size', 'sdd:size'), ('sdd_node_elements', 'sdd:elements'),
               ('sdd_vtree_of', 'sdd:vtree'), ('sdd_node_literal', 'sdd:lit'), ('sdd_manager_new', 'sddmgr'), ('sdd_manager_vtree', 'sddmgr:vtree'),
               ('sdd_vtree_read', 'vt:read'), ('sdd_negate', 'sdd:neg'), ('sdd_manager_create', 'sddmgr0')):
    HOOKS[_n] = pure(_t)
TT.NONNEG.add('sdd:size')
TT.NONNULL.update({'vt:left', 'vt:right', 'sddmgr', 'sddmgr:vtree', 'sdd:elements'})


def _simp_left(i):
    def f(x):
        if x.op == 'newint':
            return x.args[i]
        return mkT('vt:left' if i == 0 else 'vt:right', (x,))
    return f


SIMP['vt:left'] = _simp_left(0)
SIMP['vt:right'] = _simp_left(1)


@hook('sdd_vtree_is_leaf')
def _h_leaf(m, e, obj, args, want):
    return V(lift(lambda x: TRUE if x.op == 'newleaf' else FALSE if x.op == 'newint' else BOT if x is BOT or x is NULL else asbool(mkT('vt:leaf', (x,))), [m.ev(args[0])]))


@hook('sdd_vtree_data')
def _h_vdata(m, e, obj, args, want):
    v = m.ev(args[0])
    return ('lv', lift(lambda x: L_fld(x, 'vtree::data'), [m.obj(v, 'vtree_t')]))


@hook('sdd_vtree_set_data')
def _h_vsetdata(m, e, obj, args, want):
    d = m.ev(args[0])
    v = m.ev(args[1])
    m.wr(lift(lambda x: L_fld(x, 'vtree::data'), [m.obj(v, 'vtree_t')]), d)
    return V(ZERO)


@hook('set_vtree_properties', 'sdd_manager_auto_gc_and_minimize_off', 'sdd_vtree_save', 'sdd_manager_auto_gc_and_minimize_on', 'srand')
def _h_sddnop(m, e, obj, args, want):
    vs = [m.ev(a) for a in args]
    m.event('sdd', (e['fn'], vs), e)
    return V(ZERO)


def sddkind(n, want):
    def f(x):
        if x is BOT or x is NULL:
            return BOT
        known = {'sdd_true': 'T', 'sdd_false': 'F', 'sdd_lit': 'L'}.get(x.op)
        if known:
            return TRUE if known == want else FALSE
        t = asbool(mkT('sdd:istrue', (x,)))
        fl = asbool(mkT('sdd:isfalse', (x,)))
        li = asbool(mkT('sdd:islit', (x,)))
        if want == 'T':
            return t
        if want == 'F':
            return band(bnot(t), fl)
        if want == 'L':
            return band(bnot(t), band(bnot(fl), li))
        return band(bnot(t), band(bnot(fl), bnot(li)))
    return lift(f, [n])


for _n, _k in (('sdd_node_is_true', 'T'), ('sdd_node_is_false', 'F'), ('sdd_node_is_literal', 'L'), ('sdd_node_is_decision', 'D')):
    HOOKS[_n] = (lambda kk: lambda m, e, obj, args, want: V(sddkind(m.ev(args[0]), kk)))(_k)


def acop(op):
    def f(m, e, obj, args, want):
        vs = [m.ev(a) for a in args]
        return V(app('ac:' + op, vs[2], vs[0], vs[1]))
    return f


HOOKS['sdd_conjoin'] = acop('sdd_conjoin')
HOOKS['sdd_disjoin'] = acop('sdd_disjoin')


@hook('sdd_topological_sort')
def _h_topo(m, e, obj, args, want):
    n = m.ev(args[0])
    p = m.ev(args[1])
    m.wr(m.obj(p, 'unsigned long'), app('topo:size', n))
    return V(lift(lambda x: mkT('ptr', (mkT('L.idx', (mkT('L.val', (mkT('topo', (x,)),)), ZERO)),)), [n]))


TT.NONNEG.add('topo:size')
TT.NONNULL.add('topo')


def _elements(x):
    return mkT('ptr', (mkT('L.idx', (mkT('L.val', (mkT('sdd:elts', (x,)),)), ZERO)),))


SIMP['sdd:elements'] = _elements

# ---- random numbers: one fresh draw per dynamic call, named by its position
def draw(m, gen, what='draw'):
    k = '!rng'
    n = m.S.v.get(k, ZERO)
    v = app('rng:' + what, gen, n)
    m.S.v[k] = add(n, ONE)
    return v


# ---------------------------------------------------------------- PsddParameter as a number
def P_(name):
    def d(f):
        HOOKS['PsddParameter::' + name] = (lambda m, e, obj, args, want: f(m, e, obj, args) if m.prim else None)
        return f
    return d


@P_('CreateFromDecimal')
def _p_dec(m, e, obj, args):
    return V(m.ev(args[0]))


@P_('CreateFromLog')
def _p_log(m, e, obj, args):
    return V(app('exp', m.ev(args[0])))


@P_('parameter')
def _p_par(m, e, obj, args):
    return V(app('log', m.ev(obj)))


@P_('hash_value')
def _p_hash(m, e, obj, args):
    return V(app('phash', m.ev(obj)))


def _p_bin(op):
    def f(m, e, obj, args):
        return V(m.binop(op, m.ev(obj), m.ev(args[0]), 'double', 'double', e))
    return f


def _p_asg(op):
    def f(m, e, obj, args):
        b = m.ev(args[0])
        lv = m.lv(obj)
        m.wr(lv, m.binop(op, m.rd(lv), b, 'double', 'double', e))
        return ('lv', lv)
    return f


for _o in ('+', '*', '/', '-', '==', '!=', '<', '>', '<=', '>='):
    P_('operator' + _o)(_p_bin(_o))
for _o in ('+', '*', '/', '-'):
    P_('operator' + _o + '=')(_p_asg(_o))
