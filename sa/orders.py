"""Decides whether a comparison of nodes is an order on their contents.

The function has been turned into a decision diagram over comparisons of node fields.  Comparisons only see
the relative order of values, so enumerating every order type of the fields decides the axioms exactly (for element
lists: all lists of up to two elements, which is enough for a lexicographic walk to show every branch)."""
import itertools
from fractions import Fraction
import terms as TT
from terms import mkT


class Unknown(Exception):
    pass


class PastEnd:
    def __repr__(self):
        return 'past-the-end'


PAST = PastEnd()


class Node:
    """abstract node"""
    def __init__(self, kind, **f):
        self.kind = kind
        self.f = f

    def content(self):
        return (self.kind, tuple(sorted((k, tuple(x.f['node_index_'] if isinstance(x, Node) else x for x in v) if isinstance(v, list) else v) for k, v in self.f.items())))

    def __repr__(self):
        nm = {'L': 'literal', 'T': 'top', 'D': 'decision'}[self.kind]
        return '%s(%s)' % (nm, ', '.join('%s=%s' % (k.rstrip('_'), [x.f['node_index_'] if isinstance(x, Node) else x for x in v] if isinstance(v, list) else v) for k, v in self.f.items()))


def num(x):
    if isinstance(x, Node):
        if set(x.f) == {'node_index_'}:
            return x.f['node_index_']
        raise Unknown('address of a node')
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, (int, Fraction)):
        return x
    if x is PAST:
        return x
    raise Unknown(repr(x))


class Eval:
    def __init__(self, env):
        self.env = env
        self.n = 0

    def ev(self, t, b):
        self.n += 1
        op = t.op
        if op == 'c':
            return t.args[0]
        if op == 'sym':
            if t.args[0] in b:
                return b[t.args[0]]
            if t.args[0] in self.env:
                return self.env[t.args[0]]
            raise Unknown(t.args[0])
        if op.startswith('fld:'):
            o = self.ev(t.args[0], b)
            if o is PAST:
                return PAST
            f = op.split('::')[-1]
            if not isinstance(o, Node):
                raise Unknown(op)
            if f not in o.f:
                raise Unknown(f)
            return o.f[f]
        if op == 'elem':
            l = self.ev(t.args[0], b)
            i = self.ev(t.args[1], b)
            if l is PAST or i is PAST:
                return PAST
            if not isinstance(l, list):
                raise Unknown('elem')
            return l[i] if 0 <= i < len(l) else PAST
        if op == 'size':
            l = self.ev(t.args[0], b)
            return len(l) if isinstance(l, list) else PAST if l is PAST else self.no(t)
        if op == 'poly':
            s = 0
            for mono, co in TT.poly_of(t).items():
                v = co
                for fac, e in mono:
                    if e != 1:
                        self.no(t)
                    x = num(self.ev(fac, b))
                    if x is PAST:
                        return PAST
                    v = v * x
                s = s + v
            return int(s) if s == int(s) else s
        if op == 'ite':
            a = t.args[0]
            bs = t.args[1]if isinstance(t.args[1], tuple) else t.args[1:]
            i = self.atom(a, b)
            if i is PAST:
                vs = []
                for x in bs:
                    v = self.ev(x, b)
                    if v is PAST:
                        return PAST
                    vs.append(v)
                return vs[0] if all(v == vs[0] for v in vs) else PAST
            return self.ev(bs[i], b)
        if op in ('exists', 'forall'):
            n = self.ev(t.args[0], b)
            if n is PAST:
                return PAST
            past = False
            for k in range(n):
                v = self.ev(t.args[2], dict(b, **{t.args[1]: k}))
                if v is PAST:
                    past = True
                elif bool(v) == (op == 'exists'):
                    return op == 'exists'
            return PAST if past else op != 'exists'
        if op == 'first':
            n = self.ev(t.args[0], b)
            if n is PAST:
                return PAST
            rng = range(n) if t.args[1] == 'asc' else range(n - 1, -1, -1)
            for k in rng:
                e = dict(b, **{t.args[2]: k})
                v = self.ev(t.args[3], e)
                if v is PAST:
                    return PAST
                if v:
                    return self.ev(t.args[4], e)
            return PAST
        if op == 'bot':
            return PAST
        self.no(t)

    def no(self, t):
        raise Unknown(t.op)

    def atom(self, a, b):
        if a.op == 'ac':
            x = num(self.ev(a.args[0], b)) if not TT.isc(a.args[0]) else a.args[0].args[0]
            if x is PAST:
                return PAST
            pts = a.args[1] if isinstance(a.args[1], (tuple, list)) else (a.args[1],)
            return acindex(a, x)
        if a.op == 'ak':
            o = self.ev(a.args[0], b)
            if not isinstance(o, Node):
                self.no(a)
            if o.kind not in 'LTD':
                self.no(a)
            return 'LTD'.index(o.kind)
        if a.op == 'ab':
            x = a.args[0]
            if x.op == 'eq':
                u, v = self.ev(x.args[0], b), self.ev(x.args[1], b)
                if u is PAST or v is PAST:
                    return PAST
                if isinstance(u, Node) and isinstance(v, Node) and 'kind' in u.__dict__ and len(u.f) > 1:
                    raise Unknown('address of a node')
                r = (num(u) == num(v)) if not isinstance(u, list) else u == v
                return 0 if r else 1
            r = self.ev(x, b)
            return PAST if r is PAST else 0 if r else 1
        raise Unknown(a.op)


def acindex(a, x):
    v = a.args[1]
    v = v.args[0] if hasattr(v, 'op') else v
    return 0 if x < v else 1 if x == v else 2


def universe(kind):
    if kind == 'L':
        return [Node('L', flag_index_=f, literal_=l) for f in (0, 1, 2) for l in (-2, -1, 1, 2)]
    if kind == 'T':
        return [Node('T', flag_index_=f, variable_index_=v, true_parameter_=p, false_parameter_=q) for f in (0, 1) for v in (1, 2, 3) for p in (-2, -1, 0) for q in (-2, -1, 0)]
    ids = [Node('?', node_index_=i) for i in range(3)]
    el2 = list(itertools.product((0, 1), repeat=3))
    el3 = list(itertools.product((0, 1, 2), repeat=3))
    lists = [(e,) for e in el3] + list(itertools.product(el2, repeat=2)) + list(itertools.product(((0, 0, 0), (1, 0, 0), (0, 0, 1)), repeat=3))
    return [Node('D', flag_index_=f, primes_=[ids[e[0]] for e in l], subs_=[ids[e[1]] for e in l], parameters_=[-e[2] for e in l]) for f in (0, 1) for l in lists]


def ident(n):
    return n.content()


def table(t, A, B, p='nn:p0', q='nn:p1'):
    """truth of t for every pair"""
    out = []
    ev = Eval({})
    for a in A:
        row = []
        for b in B:
            ev.env = {p: a, q: b, p.replace('nn:', ''): a, q.replace('nn:', ''): b}
            v = ev.ev(t, {})
            row.append(v if v is PAST else bool(v))
        out.append(row)
    return out, ev.n


def checkorder(t, kinds, shared):
    """-> (instances, [(axiom, witness)]).  kinds: node kinds held; shared: sets of kinds kept in one container"""
    bad = []
    n = 0
    groups = [set(g) for g in shared]
    for g in groups:
        U = [x for k in 'LTD' if k in g for x in universe(k)]
        if len(g) > 1:
            U = [x for k in 'LTD' if k in g for x in universe(k)[::7]]
        M, steps = table(t, U, U)
        N = len(U)
        n += N * N
        rows = [0] * N
        ok = True
        keys = [ident(x) for x in U]
        for i in range(N):
            for j in range(N):
                v = M[i][j]
                if v is PAST:
                    bad.append(('reads past the end of an element list', U[i], U[j]))
                    ok = False
                    break
                if v:
                    rows[i] |= 1 << j
                    if i == j:
                        bad.append(('a node is ordered before itself', U[i], U[j]))
                        ok = False
            if not ok:
                break
        if not ok:
            continue
        for i in range(N):
            for j in range(i):
                a, b = M[i][j], M[j][i]
                if a and b:
                    bad.append(('two nodes are each ordered before the other', U[i], U[j]))
                    ok = False
                    break
                if not a and not b:
                    if keys[i] != keys[j]:
                        bad.append(('two nodes with different contents are taken for the same node', U[i], U[j]))
                        ok = False
                        break
                elif keys[i] == keys[j]:
                    bad.append(('two nodes with equal contents are told apart', U[i], U[j]))
                    ok = False
                    break
            if not ok:
                break
        if not ok:
            continue
        for i in range(N):
            r = rows[i]
            j = 0
            while r:
                if r & 1 and rows[j] & ~rows[i]:
                    k = (rows[j] & ~rows[i]).bit_length() - 1
                    bad.append(('the order is not transitive', U[i], U[j], U[k]))
                    ok = False
                    break
                r >>= 1
                j += 1
            if not ok:
                break
    return n, bad
