"""Peeling of loop summaries: a summary whose number of rounds is a small constant is written out round by round.
Two results that differ for one number of rounds differ; agreement for some numbers decides nothing."""
import re
from binders import *
import terms as TT
from exec import subterms

LOOPS = {'recur', 'first', 'exists', 'gen', 'lst', 'sum', 'prod', 'tab'}
MAXN = 10
MAXR = 12


class Large(Exception):
    pass


def trip(t):
    """position of the number of rounds among the arguments"""
    return 1 if t.op == 'lst' else 0


def isloop(t):
    return t.op in LOOPS or t.op.startswith(('fold:ac:', 'fold:max', 'fold:min'))


def names(t):
    if t.op == 'recur':
        return list(t.args[2])
    if t.op in ('first', 'gen'):
        return [t.args[2]]
    if t.op == 'lst':
        return [t.args[3]]
    if t.op in ('sum', 'prod', 'exists', 'tab') or t.op.startswith('fold:'):
        return [t.args[1]]
    if t.op in ('mu', 'mtab'):
        return [z for z in t.args[:2] if isinstance(z, str)]
    if t.op == 'lam':
        return list(t.args[0])
    return []


def quantities(*ts):
    """what the numbers of rounds of closed loops are made of, by number of loops"""
    bound, cnt = set(), {}
    for t in ts:
        for x in subterms(t):
            bound |= set(names(x))
    for t in ts:
        for x in subterms(t):
            if isloop(x) and isinstance(x.args[trip(x)], T):
                n = x.args[trip(x)]
                for m in poly_of(n) if n.op == 'poly' else [((n, 1),)] if n.op != 'c' else []:
                    for q, e in m:
                        if e == 1 and not q.free & bound and not q.taint and (q.op in ('size', 'sym', 'elem', 'nlines') or q.op.startswith(('fld:', 'sdd:', 'rdi', 'tok'))) and \
                                not any(z.op in TT_SKIP or isloop(z) for z in subterms(q)):
                            cnt[q] = cnt.get(q, 0) + 1
    return sorted(cnt, key=lambda q: (-cnt[q], q.id))


TT_SKIP = {'ser', 'vser', 'covered', 'pre', 'mu', 'top', 'self', 'ite'}


END = sym('none!end')       # what reading past the end gives
HOLDS = {'store', 'vlit', 'cat', 'pair', 'box', 'rec', 'upd', 'recur', 'lst', 'gen', 'tab', 'vfill', 'first', 'newnode', 'uniq', 'lam'}


def loopof(t):
    """the loop whose state before a round is asked for"""
    s = t.args[0]
    if s.op == 'ite' and s.args[0].op == 'ab' and s.args[1] is TRUE and s.args[2] is FALSE:
        s = s.args[0].args[0]
    return s


def direct(t):
    l = []
    TT._collect(t.args, l)
    return l


class Peel:
    def __init__(self, limit=60000, shape=None):
        self.memo = {}
        self.n = limit
        self.shape = shape
        self.open = {}
        self.keep = {}

    def all(self, ts):
        # a round that is not taken may read past the end
        TT.OOB[0] = END
        try:
            return [self.go(t) for t in ts]
        finally:
            TT.OOB[0] = None

    def round(self, t, j, st):
        """states after round j from the states before it"""
        m = {sym(t.args[2][0]): c(j)}
        for nm, s in zip(t.args[2][1:], st):
            m[sym(nm)] = s
        return [self.go(subst(self.kept(x), m)) for x in t.args[4]]

    def kept(self, x):
        """writes of what is there already are no writes"""
        r = self.keep.get(x)
        if r is None:
            memo = {}

            def go(t):
                r = memo.get(t.id)
                if r is None:
                    r = TT.rebuild(t, go) if t.op != 'pre' else t
                    if r.op == 'store':
                        b, k, v = r.args
                        old = mkT('elem', (b, k))
                        if any(l is old for l in leaves(v)):
                            r = lift(lambda l: b if l is old else mkT('store', (b, k, l)), [v])
                    memo[t.id] = r
                return r
            r = self.keep[x] = go(x)
        return r

    def opened(self, t):
        """states of a loop with a condition, round by round until nothing changes any more; None if it keeps going"""
        k = (t.args[2], t.args[4], tuple(t.args[3]))
        if self.shape is not None and self.shape.file is not None and any(re.match(r'b\d', str(n)) for n in t.free):
            return None         # within another loop: when that is written out
        if k in self.open:
            return self.open[k]
        self.open[k] = None
        i = sym(t.args[2][0])
        deps = []
        idx = set()
        for x in t.args[4]:
            for z in subterms(x):
                if i.args[0] in z.free and z is not i:
                    if z.op == 'pre' and loopof(z).op == 'recur' and loopof(z).args[0] is c('open') and i.args[0] not in z.args[0].free:
                        deps.append(z)
                    else:
                        idx.add(z)
        # the index may only be used to ask for other states of the same round
        free = any(z.op != 'pre' and any(y is i for y in direct(z)) for z in idx)
        if any(z.args[1] is not i for z in deps):
            return None
        low = 0
        for z in deps:
            h = self.opened(loopof(z))
            if h is None:
                return None
            low = max(low, len(h) - 1)
        hist = [[self.go(x) for x in t.args[3]]]
        while len(hist) <= MAXR:
            if free and not deps:
                # over when no further round changes anything
                m = dict(zip((sym(nm) for nm in t.args[2][1:]), hist[-1]))
                later = Peel(limit=self.n, shape=self.shape)
                later.open = self.open
                old = self.shape and self.shape.low
                try:
                    if self.shape is not None:
                        self.shape.low = (i, len(hist) - 1)
                    fix = all(later.go(subst(self.kept(x), m)) is y for x, y in zip(t.args[4], hist[-1]))
                finally:
                    if self.shape is not None:
                        self.shape.low = old
                    self.n = later.n
                if fix:
                    self.open[k] = hist
                    return hist
                hist.append(self.round(t, len(hist) - 1, hist[-1]))
                continue
            st = self.round(t, len(hist) - 1, hist[-1])
            if len(hist) - 1 >= low and all(x is y for x, y in zip(st, hist[-1])):
                self.open[k] = hist
                return hist
            hist.append(st)
        return None

    def states(self, t, n, upto):
        """states of a recurrence of n rounds before round upto (n: the final ones)"""
        st = [self.go(x) for x in t.args[3]]
        for r in range(upto):
            st = self.round(t, r if t.args[1] != 'desc' else n - 1 - r, st)
        return st

    def unroll(self, t, n, upto=None):
        """value of the summary after its first upto rounds (in its order)"""
        u = n if upto is None else upto
        op, a = t.op, t.args
        if op == 'recur':
            if a[1] not in ('asc', 'desc', 'any', None):
                return None
            return self.states(t, n, u)[a[5]]
        d = {'gen': 1, 'lst': 2, 'first': 1}.get(op)
        desc = d is not None and a[d] == 'desc'
        ks = [c(n - 1 - r if desc else r) for r in range(u)]

        def at(b, k, more=None):
            return self.go(subst(b, {sym(names(t)[0]): k, **(more or {})}))
        if op == 'sum' or op == 'prod':
            r = ZERO if op == 'sum' else ONE
            for k in ks:
                r = (add if op == 'sum' else mul)(r, at(a[2], k))
            return r
        if op == 'exists':
            r = FALSE
            for k in ks:
                r = bor(r, at(a[2], k))
            return r
        if op == 'tab':
            return mkT('vlit', tuple(at(a[2], k) for k in ks))
        if op == 'gen':
            return cat(*[at(a[3], k) for k in ks])
        if op == 'lst':
            r = self.go(a[0])
            for k in ks:
                kk = at(a[4], k)
                v = self.go(subst(a[5], {sym(a[3]): k}))
                if 'old!' in v.free:
                    o = sym('old!')
                    v = lift(lambda l: r if l is o else mkT('store', (r, kk, l)), [v])
                    r = self.go(subst(v, {o: sel(r, kk)}))
                else:
                    r = store(r, kk, v)
            return r
        if op == 'first':
            r = BOT
            for k in reversed(ks):
                r = ite(at(a[3], k), at(a[4], k), r)
            return r
        if op.startswith(('fold:max', 'fold:min')):
            r = self.go(a[3])
            for k in ks:
                v = at(a[2], k)
                r = ite(compare('>' if op[5:8] == 'max' else '<', v, r, not op.endswith('r')), v, r)
            return r
        if op.startswith('fold:'):
            r = self.go(a[3])

            def mgr(x):
                if x.op in ('sdd_true', 'sdd_false'):
                    return x.args[0]
                return x.args[1] if x.op == 'sdd_lit' else x.args[0] if x.op.startswith('ac:sdd') else None

            def one(x, l):
                if l.op == 'skip':
                    return x
                m = mgr(x) or mgr(l)
                if m is None:
                    raise Large
                return app(op[5:], m, x, l)
            for k in ks:
                r = lift(one, [r, at(a[2], k)])
            return r
        return None

    def go(self, t):
        r = self.memo.get(t.id)
        if r is not None:
            return r
        self.n -= 1
        if self.n < 0:
            raise Large
        r = self.memo[t.id] = self._go(t)
        if self.shape is not None:
            r = self.shape.eq.get(r, r)
            if self.shape.file is not None:
                r = self.shape.read(r)
            if self.shape.products and r.op in ('fst', 'snd') and r.args[0].op == 'fn:Multiply':
                r = product(r)
            if self.shape.products and r.op == 'fn:DeleteUnusedPsddNodes!' and r.args[-1].op == 'vlit':
                r = mkT(r.op, r.args[:-1] + (mkT('vlit', tuple(sorted(r.args[-1].args, key=lambda z: z.id))),))
        if r.op == 'store' and r.args[1].op != 'ite' and any(str(n).startswith('none!') for n in r.args[1].free):
            r = r.args[0]           # never written: no such field
        if r.op not in HOLDS and r.op != 'ite' and any(x is END for x in direct(r)):
            r = END
        if r is not t:
            # simplifying may have brought in loops and definitions as they were
            r = self.go(r)
        self.memo[t.id] = r
        return r

    def pick(self, t):
        """a choice on the kind of a node"""
        def f(x):
            i = self.shape.kinds.get(x)
            if x is BOT or x is END:
                return self.either([self.go(b) for b in t.args[1:]])
            return kindsel(x, [self.go(b) for b in t.args[1:]]) if i is None else self.go(t.args[1 + i])
        return lift(f, [self.go(t.args[0].args[0])])

    def either(self, vs):
        """a choice by an undefined condition: it does not matter where all outcomes agree"""
        vs = {v for v in vs if v is not BOT and v is not END}
        return vs.pop() if len(vs) == 1 else END

    def define(self, t):
        """one step of a recursive definition at a known node"""
        v, f, body, x = t.args

        def at(y):
            if y is END:
                return y
            if y not in self.shape.kinds:
                return mkT('mu', (v, f, self.go(body), y), bound=(v, f))
            memo = {}

            def go(z):
                if z is sym(v):
                    return y
                if not (z.free & {v, f}):
                    return z
                r = memo.get(z.id)
                if r is None:
                    if z.op == 'self' and z.args[0] is sym(f):
                        r = lift(lambda w: mkT('mu', (v, f, body, w), bound=(v, f)), [go(z.args[1])])
                    else:
                        r = TT.rebuild(z, go)
                    memo[z.id] = r
                return r
            return self.go(go(body))
        return lift(at, [self.go(x)])

    def _go(self, t):
        if t.op == 'pre':
            s, j = loopof(t), self.go(t.args[1])
            if s.op == 'recur' and s.args[0] is c('open') and isnum(j) and t.args[2] == 'asc':
                h = self.opened(s)
                if h is not None and cval(j) >= 0:
                    return h[min(int(cval(j)), len(h) - 1)][s.args[5]]
            if isloop(s) and isinstance(s.args[trip(s)], T) and isnum(self.go(s.args[trip(s)])):
                n = int(cval(self.go(s.args[trip(s)])))
                if n > MAXN:
                    raise Large

                def f(k):
                    if not isnum(k):
                        return mkT('pre', (s, k, t.args[2]))
                    p = int(cval(k))
                    if not 0 <= p < max(n, 1):
                        return BOT
                    r = self.unroll(s, n, p if t.args[2] != 'desc' else n - 1 - p)
                    return mkT('pre', (s, k, t.args[2])) if r is None else r
                return lift(f, [j])
            return mkT('pre', (s, j, t.args[2])) if isloop(s) and self.shape is None else top('pre')
        if self.shape is not None:
            if t.op == 'ite' and t.args[0].op == 'ak':
                return self.pick(t)
            if t.op == 'ite' and t.args[0].op == 'ab':
                q = asbool(self.go(t.args[0].args[0]))
                if q is TRUE or q is FALSE:
                    return self.go(t.args[1 if q is TRUE else 2])
                if q is BOT or 'none!end' in q.free:
                    return self.either([self.go(b) for b in t.args[1:]])
            if t.op == 'ite' and t.args[0].op == 'ac':
                q = self.go(t.args[0].args[0])
                if q is BOT or 'none!end' in q.free and q.op != 'size':
                    return self.either([self.go(b) for b in t.args[1:]])
            if t.op == 'mu':
                return self.define(t)
            if t.op == 'mkey' or t.op == 'size':
                # a table with known keys is walked in their order
                m = self.go(t.args[0])
                ks = numkeys(m)
                if ks is not None:
                    i = self.go(t.args[1]) if t.op == 'mkey' else None
                    if i is None:
                        return c(len(ks))
                    if isnum(i) and 0 <= cval(i) < len(ks):
                        return c(ks[int(cval(i))])
            if t.op == 'sort' and t.args[1].op == 'lam':
                v = self.go(t.args[0])
                if v.op == 'vlit' and len(v.args) <= 8:
                    (a, b), less = t.args[1].args
                    n = range(len(v.args))
                    lt = {(i, j): self.go(subst(less, {sym(a): v.args[i], sym(b): v.args[j]})) for i in n for j in n if i != j}
                    if all(x is TRUE or x is FALSE for x in lt.values()) and all(
                            lt[i, j] is not lt[j, i] or self.shape.products and lt[i, j] is FALSE for i, j in lt):
                        return mkT('vlit', tuple(v.args[i] for i in sorted(n, key=lambda i: sum(lt[j, i] is TRUE for j in n if j != i))))
            if t.op == 'eq' and self.shape.file is not None:
                x, y = (self.go(z) for z in t.args)
                q = self.shape.read(mkT('eq', (x, y)))
                return eq(x, y) if q.op == 'eq' else q
            if t.op == 'streamok' and self.shape.file is not None:
                q = self.shape.read(mkT('streamok', (self.go(t.args[0]),)))
                if q is TRUE or q is FALSE:
                    return q
        if t.op == 'recur' and t.args[0] is c('open') and t.args[1] == 'asc':
            h = self.opened(t)
            if h is not None:
                return h[-1][t.args[5]]
        if isloop(t) and isinstance(t.args[trip(t)], T):
            N = self.go(t.args[trip(t)])
            if N.op == 'ite' or isnum(N):
                lv = list(leaves(N))
                if all(isnum(x) and 0 <= cval(x) <= MAXN and cval(x) == int(cval(x)) for x in lv):
                    rs = {int(cval(x)): self.unroll(t, int(cval(x))) for x in lv}
                    if all(v is not None for v in rs.values()):
                        return lift(lambda n: rs[int(cval(n))], [N])
                if any(isnum(x) and cval(x) > MAXN for x in lv):
                    raise Large
        return TT.rebuild(t, self.go)


def numkeys(m):
    ks = set()
    while m.op == 'store':
        if not isnum(m.args[1]):
            return None
        ks.add(cval(m.args[1]))
        m = m.args[0]
    return sorted(ks) if m.op == 'mempty' else None


def fixed(q, k, *ts):
    """the terms with quantity q equal to k, loops of known length written out"""
    memo = {}

    def put(x):
        if x is q:
            return c(k)
        r = memo.get(x.id)
        if r is None:
            if x.op == 'pre' and isloop(loopof(x)):
                # keep the loop itself: its first rounds are asked for
                s = loop(loopof(x), put)
                r = mkT('pre', (s, put(x.args[1]), x.args[2]))
            else:
                r = TT.rebuild(x, put)
            memo[x.id] = r
        return r
    p = Peel()
    return p.all([put(t) for t in ts])


def loop(x, go):
    """rebuilt without simplifying for the number of rounds"""
    def up(y):
        if isinstance(y, T):
            return go(y)
        if isinstance(y, tuple):
            return tuple(up(z) for z in y)
        return y
    return mkT(x.op, tuple(up(y) for y in x.args), bound=tuple(names(x)) + (('old!',) if x.op == 'lst' else ()))


class Shape:
    """a small diagram or vtree: what its nodes and their fields are"""

    def __init__(self, text):
        self.text, self.eq, self.kinds, self.path = text, {}, {}, {}
        self.file = None
        self.products = False
        self.low = None

    def least(self, k):
        """a lower bound of a position"""
        if isnum(k):
            return int(cval(k))
        if self.low is not None:
            r = sub(k, self.low[0])
            if isnum(r):
                return int(cval(r)) + self.low[1]
        return -1

    def read(self, r):
        """what is read from the small file"""
        op, a = r.op, r.args
        if op in ('ln', 'lnok', 'advln', 'lnres') or op in ('rdi', 'rdu', 'rdf', 'rds'):
            b, k = a
            if b is END:
                return END
            if b.op == 'issf':
                return b if op == 'advln' else END
            if b.op in ('ifs', 'iss', 'advln'):
                b, k = mkT(b.op, b.args), k
                r = self.read(mkT(b.op if op == 'advln' else op, (b.args[0], add(b.args[1], k))))
                return r
            if b.op == 'ofs' and b.args[1] is c(''):
                return self.read(mkT('iss' if op == 'advln' else op, (b.args[0], k)))
            if b is self.file and isnum(k):
                i = int(cval(k))
                if op == 'ln':
                    return self.lines[i] if i < len(self.lines) else text()
                if op == 'lnok':
                    return c(i < len(self.lines))
            if b.op == 'text' and isnum(k) and op[:2] == 'rd':
                i = int(cval(k))
                return b.args[1 + i] if i < len(b.args) - 1 else END
            return r
        if op == 'nlines' and a[0] is self.file:
            return c(len(self.lines))
        if op == 'streamok':
            s = a[0]
            if s.op == 'ofs' and s.args[1] is c(''):
                s = mkT('iss', (s.args[0], ZERO))
            if s.op == 'issf':
                return FALSE
            for ops, n in ((('ifs',), len(self.lines) if s.args and s.args[0] is self.file else None),
                           (('iss', 'advln'), len(s.args[0].args) - 1 if s.args and isinstance(s.args[0], T) and s.args[0].op == 'text' else None)):
                if s.op in ops and n is not None:
                    if self.least(s.args[1]) > n:
                        return FALSE
                    if isnum(s.args[1]):
                        return TRUE
        if op == 'eq' and any(x.op == 'text' for x in a):
            x, y = a if a[0].op == 'text' else (a[1], a[0])
            if y.op == 'c' and isinstance(y.args[0], str):
                return TRUE if x.args[0] is y else FALSE
            if y.op == 'text':
                return TRUE if x is y else FALSE if x.args[0] is not y.args[0] else r
        if op in ('num:stoi', 'num:stol', 'num:stoul') and a[0].op == 'text' and len(a[0].args) > 1:
            return a[0].args[1]
        if op == 'size' and a[0].op == 'text':
            return c(len(a[0].args[0].args[0]))
        if op == 'elem' and a[0].op == 'text' and isnum(a[1]):
            t = a[0].args[0].args[0]
            i = int(cval(a[1]))
            return c(ord(t[i]) if i < len(t) else 0)
        if op == 'substr' and a[0].op == 'text' and a[1] is ONE and a[2] is c('npos') and len(a[0].args) > 1 and a[0].args[0].args[0][1:2] in (' ', ''):
            return mkT('text', (c(a[0].args[0].args[0][1:]),) + a[0].args[2:])
        return r


def text(s=''):
    """a line; numbers written #name are arbitrary"""
    def tok(w):
        try:
            return c(int(w))
        except ValueError:
            return sym('w!' + w[1:]) if w[0] == '#' else c(w)
    return mkT('text', (c(s),) + tuple(tok(w) for w in s.split()))


FILES = {
    'uai': ['MARKOV|2|2 2|1|1 0||2|#a #b', 'BAYES|2|2 2|2|1 0|2 1 0||2|#a #b||4|#a #b|#c #d', 'MARKOV|3|2 2 2|2|2 0 2|1 1||4 #a #b #c #d||2|#e|#f',
            'MARKOV|2|2 2|1|2 1 0||4|#a #b #c|#d', 'MARKOV|2|2 2|2|1 0|1 1||2|#a #b', 'MARKOV|1|2|0',
            'MARKOV|2|2 2|1|2 1 1||4|#a #b #c #d'],
    'cnf': ['p cnf 2 2|1 -2 0|2 0', 'c note|p cnf 3 1|-3 1 2 0', 'p cnf 2 3|1 0|-1 0|c note|2 -1 0', 'p cnf 1 0'],
}


def files(ts):
    base = {x.args[0] for t in ts for x in subterms(t) if x.op in ('ln', 'ifs') and x.args[0].op == 'sym' and str(x.args[0].args[0]).lstrip('*').startswith('p')}
    if len(base) != 1:
        return
    f, = base
    kind = 'uai' if any(x.op == 'num:stoi' for t in ts for x in subterms(t)) else 'cnf'
    for t in FILES[kind]:
        s = Shape(t)
        s.file = f
        s.lines = [text(l) for l in t.split('|')]
        s.path[asbool(mkT('streamok', (mkT('ifs', (f, ZERO)),))).args[0]] = 0
        yield s


PRIMES, SUBS, PARAMS = 'fld:PsddDecisionNode::primes_', 'fld:PsddDecisionNode::subs_', 'fld:PsddDecisionNode::parameters_'
NODES = [sym('nn:in!%d' % i) for i in range(12)]
_ids = {n: i for i, n in enumerate(NODES)}
DISTINCT.append(lambda a, b: a is not b and any(x.op == 'sym' and str(x.args[0]).startswith('none!') for x in (a, b)))
DISTINCT.append(lambda a, b: a in _ids and b in _ids or (a.op == b.op == 'fld:PsddNode::node_index_' and a.args[0] is not b.args[0] and
                                                       a.args[0] in _ids and b.args[0] in _ids))


MADE = {'topnode', 'litnode', 'conf'}


def _differ(a, b):
    """nodes of one manager made from contents that differ in a known value"""
    if a is b:
        return False
    if isnum(a) and isnum(b):
        return True
    if a.op in MADE and b.op in MADE:
        return a.args[0] is b.args[0] and (a.op != b.op or any(_differ(x, y) for x, y in zip(a.args[1:], b.args[1:])))
    if a.op == b.op == 'vlit':
        return len(a.args) != len(b.args) or any(_differ(x, y) for x, y in zip(a.args, b.args))
    return False


FORMULAS = {'sdd_true', 'sdd_false', 'sdd_lit', 'sddfn'}


def _formulas(a, b):
    """two formulas over given variables, of one manager"""
    if a is b or any(x.op == 'sdd_lit' and not isnum(x.args[0]) for x in (a, b)):
        return False
    m = [x.args[1] if x.op == 'sdd_lit' else x.args[0] for x in (a, b)]
    return m[0] is m[1]


DISTINCT.append(lambda a, b: a.op in FORMULAS and b.op in FORMULAS and _formulas(a, b))
DISTINCT.append(lambda a, b: a.op in MADE and b.op in MADE and _differ(a, b))


def diagrams(root, sers):
    """small diagrams rooted at a node: one node; one or two elements over terminals, with and without sharing; two levels"""
    L, TP, D = 0, 1, 2
    n = NODES
    # (text, the root and the nodes below it: +-v literal, (v,) free variable, [(prime, sub)] elements)
    forms = [('a literal', [1]), ('a negative literal', [-1]), ('a free variable', [(1,)]),
             ('one element', [[(1, 2)], 1, (2,)]), ('one element', [[(1, 2)], (1,), -2]),
             ('two elements', [[(1, 3), (2, 4)], 1, -1, (2,), -2]),
             ('two elements with one sub', [[(1, 3), (2, 3)], -1, 1, (2,)]),
             ('two levels', [[(1, 2)], -1, [(3, 4)], (2,), 3]),
             ('three elements', [[(1, 4), (2, 4), (3, 4)], [(5, 6)], [(5, 7)], [(8, 6)], -3, 1, 2, -2, -1])]
    for text, defs in forms:
        s = Shape(text)
        nd = n[:len(defs)]
        if root is not None:
            s.eq[root] = n[0]
        els = {}
        for i, (x, d) in enumerate(zip(nd, defs)):
            s.kinds[x] = D if isinstance(d, list) else TP if isinstance(d, tuple) else L
            if isinstance(d, list):
                els[i] = d
            elif isinstance(d, tuple):
                s.eq[mkT('fld:PsddTopNode::variable_index_', (x,))] = c(d[0])
            else:
                s.eq[mkT('fld:PsddLiteralNode::literal_', (x,))] = c(d)
            # fields of the kinds that it is not
            if not isinstance(d, int):
                s.eq[mkT('fld:PsddLiteralNode::literal_', (x,))] = sym('none!l%d' % i)
            if not isinstance(d, tuple):
                s.eq[mkT('fld:PsddTopNode::variable_index_', (x,))] = sym('none!v%d' % i)
        s.path[mkT('ak', (nd[0],))] = s.kinds[nd[0]]
        for i, es in els.items():
            x = nd[i]
            for f, l in ((PRIMES, [nd[p] for p, q in es]), (SUBS, [nd[q] for p, q in es])):
                s.eq[mkT(f, (x,))] = mkT('vlit', tuple(l))
            s.eq[mkT('size', (mkT(PARAMS, (x,)),))] = c(len(es))
            if i == 0:
                for at in atoms(compare('==', mkT('size', (mkT(PRIMES, (x,)),)), c(len(es)))):
                    s.path[at] = 1
        for z in sers:
            s.eq[z] = s.eq[mkT('ser', (mkT('vlit', (nd[0],)),))] = mkT('vlit', tuple(nd))
            if z.args[0].op != 'vlit':
                s.eq[z.args[0]] = mkT('vlit', (nd[0],))
        yield s


def vtrees(root, sers):
    l, r = mkT('vt:left', (root,)), mkT('vt:right', (root,))

    def leaf(s, x, y):
        s.eq[mkT('vt:leaf', (x,))] = TRUE if y else FALSE
    s = Shape('a leaf')
    leaf(s, root, True)
    s.path[mkT('ab', (mkT('vt:leaf', (root,)),))] = 0
    for z in sers:
        s.eq[z] = mkT('vlit', (root,))
    yield s
    s = Shape('two leaves')
    leaf(s, root, False)
    leaf(s, l, True)
    leaf(s, r, True)
    s.path[mkT('ab', (mkT('vt:leaf', (root,)),))] = 1
    for z in sers:
        s.eq[z] = mkT('vlit', (root, l, r))
    yield s


def sdds(root):
    """small SDDs, children first: literals, both constants, elements whose sub is false, true or a literal"""
    forms = [('a literal', [1]), ('a negative literal', [-1]),
             ('two elements, one sub false', [1, -1, 2, 'F', [(0, 2), (1, 3)]]),
             ('two elements, one sub true', [1, -1, -2, 'T', [(0, 2), (1, 3)]]),
             ('two elements, first sub false', [1, -1, 2, 'F', [(0, 3), (1, 2)]]),
             ('two levels, three elements', [1, -1, 2, -2, 'F', 'T', [(0, 2), (1, 4)], [(0, 3), (1, 4)], 3, [(6, 8), (7, 4), (1, 5)]]),
             ('two levels, three elements', [1, -1, 2, -2, 'F', 'T', [(0, 2), (1, 4)], [(0, 3), (1, 4)], -3, [(1, 8), (6, 5), (7, 4)]])]
    for t, defs in forms:
        s = Shape(t)
        nd = NODES[:len(defs)]
        r = nd[-1]
        s.eq[root] = r
        for x in (root, r):
            s.eq[mkT('topo', (x,))] = mkT('vlit', tuple(nd))
            s.eq[mkT('topo:size', (x,))] = c(len(nd))
        for i, (x, d) in enumerate(zip(nd, defs)):
            for op, v in (('istrue', d == 'T'), ('isfalse', d == 'F'), ('islit', isinstance(d, int))):
                s.eq[mkT('sdd:' + op, (x,))] = TRUE if v else FALSE
            s.eq[mkT('sdd:id', (x,))] = c(i + 2)
            if isinstance(d, int):
                s.eq[mkT('sdd:lit', (x,))] = c(d)
            if isinstance(d, list):
                s.eq[mkT('sdd:size', (x,))] = c(len(d))
                s.eq[mkT('sdd:elts', (x,))] = mkT('vlit', tuple(nd[k] for e in d for k in e))
        for op in ('istrue', 'isfalse'):
            s.path[mkT('ab', (mkT('sdd:' + op, (root,)),))] = 1
        yield s


TABLES = [((1, 2), (1, 4, 3, 12)), ((2, 1), (1, 2, 3, 5)), ((1,), (2, 3)), ((1,), (0, 3)), ((2, 1), (0, 2, 3, 5)), ((1, 2), (1, 2, 0, 0)), ((1, 2), (0, 0, 3, 1)),
          ((2, 3, 1), (1, 2, 3, 5, 7, 11, 13, 17)), ((1, 3, 2), (1, 0, 3, 2, 4, 0, 0, 2)), ((3, 1, 2), (1, 2, 3, 5, 7, 11, 13, 17))]


def factors(root, z, scope, table):
    """one factor over a right-linear vtree"""
    for vs, ws in TABLES:
        s = Shape('a factor over %s with weights %s' % (vs, ws))
        n = len(vs)
        order, v = [], root
        for i in range(1, n):
            order += [(v, 2 * i - 1, None), (mkT('vt:left', (v,)), 2 * i - 2, i)]
            v = mkT('vt:right', (v,))
        order.append((v, 2 * n - 2, n))
        for x, p, w in order:
            s.eq[mkT('vt:leaf', (x,))] = FALSE if w is None else TRUE
            s.eq[mkT('vt:pos', (x,))] = c(p)
            if w is not None:
                s.eq[mkT('vt:var', (x,))] = c(w)
        # breadth first
        s.eq[z] = mkT('vlit', tuple(x for x, _, _ in order))
        s.path[mkT('ab', (mkT('vt:leaf', (root,)),))] = 1 if n > 1 else 0
        s.eq[scope] = mkT('vlit', tuple(c(w) for w in vs))
        s.eq[table] = mkT('vlit', tuple(c(w) for w in ws))
        yield s


def _members(x):
    if x.op == 'nprod':
        return list(x.args)
    return [x] if x.op == 'sym' and str(x.args[0]).startswith('nn:f!') else None


def _const(xs):
    return ONE if len(xs) < 2 else mkT('nconst', tuple(xs))


def product(t):
    """a product of normalised circuits is decided by what was multiplied, and so is what normalising it took out"""
    x = t.args[0]
    if x.args[3] is not ZERO:
        return t
    a, b = _members(x.args[1]), _members(x.args[2])
    if a is None or b is None:
        return t
    ab = sorted(a + b, key=lambda z: str(z.args[0]))
    if t.op == 'fst':
        return mkT('nprod', tuple(ab))
    m = {}
    for k, e in ((_const(ab), 1), (_const(a), -1), (_const(b), -1)):
        if k is not ONE:
            m[k] = m.get(k, 0) + e
    return TT.from_poly({tuple(sorted(((k, e) for k, e in m.items() if e), key=lambda z: z[0].id)): TT.Fraction(1)})


TT.NONNULL.add('nprod')
DISTINCT.append(lambda a, b: a is not b and a.op == b.op == 'sym' and str(a.args[0]).startswith('nn:f!') and str(b.args[0]).startswith('nn:f!'))
# scopes, and which factors have the same table
NETWORKS = [((1,), (1, 2), (2,)), ((1, 2), (1, 2), (1,), 'AABC'), ((2,), (3,), (2,), (2,), 'ABAA'), ((1, 3), (1, 3), 'AA'), ((2, 1), (2,), (3, 1)), ((3,), (1,), (2,), (1, 2, 3)), ((2, 3), (3, 2)), ((3, 2), (1, 2), (3,), (3, 1)), ((2,),)]


def networks(root, z, size, clusters, calls):
    l, r = mkT('vt:left', (root,)), mkT('vt:right', (root,))
    rl, rr = mkT('vt:left', (r,)), mkT('vt:right', (r,))
    for cs in NETWORKS:
        s = Shape('factors over %s' % (cs,))
        same = range(len(cs))
        if isinstance(cs[-1], str):
            cs, same = cs[:-1], [cs[-1].index(x) for x in cs[-1]]
        # 1 above (3 above 2)
        for x, p, w, up in ((root, 1, None, None), (l, 0, 1, root), (r, 3, None, root), (rl, 2, 3, r), (rr, 4, 2, r)):
            s.eq[mkT('vt:leaf', (x,))] = FALSE if w is None else TRUE
            s.eq[mkT('vt:pos', (x,))] = c(p)
            s.eq[mkT('vt:parent', (x,))] = up or NULL
            if w is not None:
                s.eq[mkT('vt:var', (x,))] = c(w)
        if z is not None:
            s.eq[z] = mkT('vlit', (root, l, r, rl, rr))
        s.path[mkT('ab', (mkT('vt:leaf', (root,)),))] = 1
        if size is not None:
            s.eq[size] = c(len(cs))
        if clusters is not None:
            s.eq[clusters] = mkT('vlit', tuple(mkT('vlit', tuple(c(v) for v in cl)) for cl in cs))
        for this in calls:
            for k in range(len(cs)):
                s.eq[mkT('fn:compile_factor', (this, c(k)))] = mkT('pair', (sym('nn:f!%d' % same[k]), sym('z!%d' % same[k])))
        s.products = True
        yield s


CLAUSES = [((2, 3), ((3, -2), (2,))), ((1, 2, 4), ((-4, 1, 2), (2, -1), (4,))), ((5,), ((),)), ((3, 5), ((5,), (), (-3, 5))), ((2,), ((2,), (-2,))),
           ((1, 2), ((1, -1),)), ((7, 2), ((-7,),)), ((1, 2), ())]


def formulas(clauses, variables):
    for vs, cs in CLAUSES:
        s = Shape('clauses %s over variables %s' % (cs, vs))
        s.eq[variables] = mkT('vlit', tuple(c(v) for v in vs))
        s.eq[clauses] = mkT('vlit', tuple(mkT('vlit', tuple(c(l) for l in cl)) for cl in cs))
        yield s


def shapes(*ts, calls=False):
    trace = calls
    calls = {x.args[0] for t in ts for x in subterms(t) if x.op == 'fn:compile_factor'}
    if calls:
        if not trace and not all(l.op == 'pair' for t in ts for l in TT.leaves(t)):
            return
        got = {k: {x for t in ts for x in subterms(t) if x.op == k} for k in ('vser', 'fld:UaiNetwork::m_factor_size', 'fld:UaiNetwork::m_clusters')}
        if all(len(q) < 2 for q in got.values()):
            z, n, q = [list(x)[0] if x else None for x in got.values()]
            yield from networks(z.args[0] if z else sym('none!root'), z, n, q, calls)
        return
    cl = {x for t in ts for x in subterms(t) if x.op == 'fld:CNF::clauses_'}
    va = {x for t in ts for x in subterms(t) if x.op == 'fn:VariablesUnderVtree'}
    if len(cl) == 1 and len(va) == 1:
        yield from formulas(list(cl)[0], list(va)[0])
        return
    ser, vser, mus = {}, {}, {}
    fac = {}
    for x in subterms(ts[0]):
        if x.op == 'elem' and x.args[0].op in ('fld:UaiNetwork::m_clusters', 'fld:UaiNetwork::m_params') and not any(re.match(r'b\d', str(n)) for n in x.free):
            fac.setdefault(x.args[0].op[-7:], set()).add(x)
        if x.op == 'vser':
            fac.setdefault('vser', set()).add(x)
    if len(fac) == 3 and all(len(q) == 1 for q in fac.values()):
        (a,), (b,), (z,) = [fac[k] for k in ('lusters', '_params', 'vser')]
        yield from factors(z.args[0], z, a, b)
        return
    topos = {x.args[0] for t in ts for x in subterms(t) if x.op == 'topo'}
    if len(topos) == 1 and list(topos)[0].op == 'sym':
        yield from sdds(list(topos)[0])
        return
    for t in ts:
        for x in subterms(t):
            if x.op == 'ser' and x.args[0].op in ('vlit', 'sym'):
                ser[x] = x.args[0].args[0] if x.args[0].op == 'vlit' and len(x.args[0].args) == 1 else None
            if x.op == 'vser' and not any(str(z).startswith('b') for z in x.args[0].free):
                vser[x] = x.args[0]
            if x.op == 'mu' and x.args[3].op == 'sym' and str(x.args[3].args[0]).startswith('nn:') and any(z.op == 'ak' for z in atoms(x.args[2])):
                mus[x.args[3]] = 1
    if any(x.op in ('ln', 'nlines') for t in ts for x in subterms(t)):
        yield from files(ts)
        return
    if len(set(ser.values())) == 1:
        r, = set(ser.values())
        if r is not None and r.op == 'sym' or len(ser) == 1 and r is None:
            yield from diagrams(r, list(ser))
    elif not ser and len(mus) == 1:
        yield from diagrams(list(mus)[0], [])
    elif len(vser) == 1 or sum(r.op == 'sym' for r in vser.values()) == 1:
        z, r = sorted(vser.items(), key=lambda q: q[1].op != 'sym')[0]
        if r.op in ('sym',) or r.op.startswith(('fld:', 'vt:')):
            yield from vtrees(r, [z])


def shaped(s, *ts):
    p = Peel(shape=s)
    return p.all(ts)
