"""Hash-consed value graph: terms, multi-valued decision diagrams over atoms,
Laurent-polynomial normal form for arithmetic, binders with canonical names.

A *value* is either a leaf term or an 'ite' node (atom, branch...).  Branching is
kept outermost (application lifts over 'ite'), except under the constructors in
LAZY, which keep values inside.  Equal values are the same object."""
import sys
import time
from fractions import Fraction
sys.setrecursionlimit(20000)


class Blowup(Exception):
    pass


class T:
    __slots__ = ('op', 'args', 'id', 'free', 'h', 'taint', 'sz')

    def __repr__(self):
        return show(self)


_tab = {}
_ctr = [0]
LIMIT = 4_000_000
BUDGET = [0]
E0 = frozenset()
# op -> (list of lazily kept argument positions, position of bound names or None)
BINDERS = {}


def _key(a):
    if isinstance(a, T):
        return a.id
    if isinstance(a, tuple):
        return ('t',) + tuple(_key(x) for x in a)
    return (type(a).__name__, a)


def _collect(a, out):
    if isinstance(a, T):
        out.append(a)
    elif isinstance(a, tuple):
        for x in a:
            _collect(x, out)


DEADLINE = [None, 0]


def mkT(op, args, bound=()):
    if DEADLINE[0] is not None:
        DEADLINE[1] += 1
        if not DEADLINE[1] % 500 and time.time() > DEADLINE[0]:
            raise Blowup('time budget')
    k = (op, tuple(_key(a) for a in args))
    t = _tab.get(k)
    if t is not None:
        return t
    _ctr[0] += 1
    BUDGET[0] += 1
    if BUDGET[0] > LIMIT:
        raise Blowup('term budget')
    t = T()
    t.op = op
    t.args = tuple(args)
    t.id = _ctr[0]
    subs = []
    _collect(t.args, subs)
    fr = set()
    h = 0
    taint = op == 'top' or op.startswith('ext:')
    sz = 1
    for s in subs:
        fr |= s.free
        if s.h > h:
            h = s.h
        taint = taint or s.taint
        sz += s.sz
    if op == 'sym':
        fr.add(args[0])
    if bound:
        fr -= set(bound)
        h += 1
    t.free = frozenset(fr) if fr else E0
    t.h = h
    t.taint = taint
    t.sz = min(sz, 10 ** 9)
    _tab[k] = t
    return t


def c(v):
    if isinstance(v, Fraction) and v.denominator == 1:
        v = int(v)
    return mkT('c', (v,))


TRUE = c(True)
FALSE = c(False)
NULL = c(None)
BOT = mkT('bot', ())
ZERO = c(0)
ONE = c(1)


def sym(name):
    return mkT('sym', (name,))


_top = [0]


def top(why=''):
    _top[0] += 1
    return mkT('top', (_top[0], why))


def isc(t):
    return t.op == 'c'


def cval(t):
    return t.args[0]


def isnum(t):
    return t.op == 'c' and isinstance(t.args[0], (int, Fraction)) and not isinstance(t.args[0], bool)


# ---------------------------------------------------------------- MDD
DOM = {'ab': 2, 'ak': 3, 'ac': 3}
# ab: branches (true, false); ak: (L, T, D); ac: (<, =, >)


def dom(atom):
    return DOM[atom.op]


def topatom(v):
    return v.args[0] if v.op == 'ite' else None


def cof(v, atom, i):
    if v.op == 'ite' and v.args[0] is atom:
        return v.args[1 + i]
    return v


def mk(atom, branches):
    """ordered constructor: every branch's top atom is after `atom`"""
    b0 = branches[0]
    if all(b is b0 for b in branches):
        return b0
    # lazily kept structure: push the choice inside
    r = _pushin(atom, branches)
    if r is not None:
        return r
    return mkT('ite', (atom,) + tuple(branches))


def mkord(atom, branches):
    branches = [cof(b, atom, i) for i, b in enumerate(branches)]
    b0 = branches[0]
    if all(b is b0 for b in branches):
        return b0
    t = None
    for b in branches:
        if b.op == 'ite' and (t is None or b.args[0].id < t.id):
            t = b.args[0]
    if t is None or t.id > atom.id:
        return mk(atom, branches)
    return mk(t, [mkord(atom, [cof(b, t, i) for b in branches]) for i in range(dom(t))])


def lift(fn, args):
    memo = {}

    def go(args):
        k = tuple(a.id for a in args)
        r = memo.get(k)
        if r is not None:
            return r
        t = None
        for a in args:
            if a.op == 'ite' and (t is None or a.args[0].id < t.id):
                t = a.args[0]
        if t is None:
            r = fn(*args)
        else:
            r = mkord(t, [go([cof(a, t, i) for a in args]) for i in range(dom(t))])
        memo[k] = r
        return r
    return go(list(args))


def ite(cnd, a, b):
    if cnd is TRUE:
        return a
    if cnd is FALSE:
        return b
    if a is b:
        return a
    memo = {}

    def go(cn, x, y):
        if cn is TRUE:
            return x
        if cn is FALSE:
            return y
        if x is y:
            return x
        k = (cn.id, x.id, y.id)
        r = memo.get(k)
        if r is not None:
            return r
        if cn.op != 'ite':
            # a non-boolean leaf used as condition
            if cn is BOT:
                return BOT
            cn2 = asbool(cn)
            if cn2.op != 'ite':
                return go(cn2, x, y)
            r = go(cn2, x, y)
        else:
            t = cn.args[0]
            for v in (x, y):
                if v.op == 'ite' and v.args[0].id < t.id:
                    t = v.args[0]
            r = mkord(t, [go(cof(cn, t, i), cof(x, t, i), cof(y, t, i)) for i in range(dom(t))])
        memo[k] = r
        return r
    return go(cnd, a, b)


def asbool(t):
    if t is TRUE or t is FALSE or t is BOT:
        return t
    if t.op == 'ite':
        return lift(asbool, [t])
    if t.op == 'c':
        v = t.args[0]
        if v is None:
            return FALSE
        return TRUE if v not in (0, '') or isinstance(v, str) else FALSE
    if t.op == 'it' or t.op == 'ptr' or t.op == 'box':
        return TRUE
    return mk(mkT('ab', (t,)), [TRUE, FALSE])


def band(a, b):
    return ite(a, b, FALSE)


def bor(a, b):
    return ite(a, TRUE, b)


def bnot(a):
    return ite(a, FALSE, TRUE)


def beq(a, b):
    return ite(a, b, bnot(b))


def restrict(f, cnd):
    """simplify f assuming cnd (don't care outside)"""
    if cnd is TRUE or cnd is FALSE:
        return f
    memo = {}

    def go(f, cn):
        if cn is TRUE or f.op != 'ite':
            return f
        if cn.op != 'ite':
            return f
        k = (f.id, cn.id)
        r = memo.get(k)
        if r is not None:
            return r
        tf, tc = f.args[0], cn.args[0]
        if tc.id < tf.id:
            o = FALSE
            for b in cn.args[1:]:
                o = bor(o, b)
            r = go(f, o)
        elif tf.id < tc.id:
            r = mkord(tf, [go(b, cn) for b in f.args[1:]])
        else:
            fe = [i for i in range(dom(tf)) if cn.args[1 + i] is not FALSE]
            rs = {i: go(f.args[1 + i], cn.args[1 + i]) for i in fe}
            if not fe:
                r = f
            else:
                d = rs[fe[0]]
                r = mkord(tf, [rs.get(i, d) for i in range(dom(tf))])
        memo[k] = r
        return r
    return go(f, cnd)


def leaves(v, seen=None):
    seen = set() if seen is None else seen
    if v.id in seen:
        return
    seen.add(v.id)
    if v.op == 'ite':
        for b in v.args[1:]:
            yield from leaves(b, seen)
    else:
        yield v


def atoms(v, seen=None):
    seen = set() if seen is None else seen
    if v.id in seen or v.op != 'ite':
        return
    seen.add(v.id)
    yield v.args[0]
    for b in v.args[1:]:
        yield from atoms(b, seen)


def cofactor(v, atom, i):
    """deep cofactor"""
    memo = {}

    def go(x):
        if x.op != 'ite' or x.args[0].id > atom.id:
            return x
        r = memo.get(x.id)
        if r is None:
            if x.args[0] is atom:
                r = x.args[1 + i]
            else:
                r = mkord(x.args[0], [go(b) for b in x.args[1:]])
            memo[x.id] = r
        return r
    return go(v)


# ---------------------------------------------------------------- lazily kept structure
ARR = ('store', 'lst')


def arrbase(a):
    ls = []
    while a.op == 'store':
        ls.append((a.args[1], a.args[2]))
        a = a.args[0]
    return a, ls[::-1]


def _pushin(atom, bs):
    op0 = bs[0].op
    if op0 == 'pair' and all(b.op == 'pair' for b in bs):
        return mkT('pair', (mkord(atom, [b.args[0] for b in bs]), mkord(atom, [b.args[1] for b in bs])))
    if op0 == 'rec' and all(b.op == 'rec' and b.args[0] == bs[0].args[0] and
                            tuple(f for f, _ in b.args[1]) == tuple(f for f, _ in bs[0].args[1]) for b in bs):
        fs = tuple((f, mkord(atom, [b.args[1][i][1] for b in bs])) for i, (f, _) in enumerate(bs[0].args[1]))
        return mkT('rec', (bs[0].args[0], fs))
    if op0 == 'vlit' and all(b.op == 'vlit' and len(b.args) == len(bs[0].args) for b in bs) and bs[0].args:
        return mkT('vlit', tuple(mkord(atom, [b.args[i] for b in bs]) for i in range(len(bs[0].args))))
    if any(b.op == 'store' for b in bs):
        ab = [arrbase(b) for b in bs]
        base = ab[0][0]
        if all(x[0] is base for x in ab):
            lists = [x[1] for x in ab]
            n = 0
            while all(len(l) > n for l in lists) and all(l[n] == lists[0][n] for l in lists):
                n += 1
            out = base
            for k_, v_ in lists[0][:n]:
                out = mkT('store', (out, k_, v_))
            rest = [l[n:] for l in lists]
            # merge: repeatedly take a key at the head of some list
            guard = 0
            while any(rest):
                guard += 1
                cand = None
                for l in rest:
                    if l:
                        cand = l[0][0]
                        # prefer a key that is not deeper in another list
                        if all(all(e[0] is not cand for e in m[1:]) for m in rest):
                            break
                vals = []
                cur = mkT('elem', (out, cand)) if out.op == 'mempty' else sel(out, cand)
                for j, l in enumerate(rest):
                    if l and l[0][0] is cand:
                        vals.append(l[0][1])
                        rest[j] = l[1:]
                    else:
                        vals.append(cur)
                v = mkord(atom, vals)
                if v is not cur:
                    out = store(out, cand, v)
                if guard > 200:
                    return None
            return out
    return None


# ---------------------------------------------------------------- polynomials
def poly_of(t):
    if isnum(t):
        return {(): Fraction(t.args[0])} if t.args[0] != 0 else {}
    if t is TRUE:
        return {(): Fraction(1)}
    if t is FALSE:
        return {}
    if t.op == 'poly':
        return {m: cf for m, cf in t.args[0]}
    return {((t, 1),): Fraction(1)}


def from_poly(p):
    p = {m: cf for m, cf in p.items() if cf != 0}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, cf), = p.items()
        if m == ():
            return c(cf)
        if cf == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = sorted(p.items(), key=lambda kv: tuple((x.id, e) for x, e in kv[0]))
    return mkT('poly', (tuple((m, cf) for m, cf in items),))


def _pmul(a, b):
    out = {}
    if len(a) * len(b) > 4000:
        raise Blowup('poly')
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            d = {}
            for x, e in m1 + m2:
                d[x] = d.get(x, 0) + e
            m = tuple(sorted(((x, e) for x, e in d.items() if e != 0), key=lambda z: z[0].id))
            out[m] = out.get(m, 0) + c1 * c2
    return out


def _add(a, b):
    if a is BOT or b is BOT:
        return BOT
    p = dict(poly_of(a))
    for m, cf in poly_of(b).items():
        p[m] = p.get(m, 0) + cf
    return from_poly(p)


def _mul(a, b):
    if a is BOT or b is BOT:
        return BOT
    return from_poly(_pmul(poly_of(a), poly_of(b)))


def _neg(a):
    if a is BOT:
        return BOT
    return from_poly({m: -cf for m, cf in poly_of(a).items()})


def _inv(a):
    if a is BOT:
        return BOT
    p = poly_of(a)
    if not p:
        return mkT('inv0', ())
    if len(p) == 1:
        (m, cf), = p.items()
        return from_poly({tuple((x, -e) for x, e in m): 1 / cf})
    # normalise the leading coefficient
    lead = sorted(p.items(), key=lambda kv: tuple((x.id, e) for x, e in kv[0]))[0][1]
    q = from_poly({m: cf / lead for m, cf in p.items()})
    return from_poly({((q, -1),): 1 / lead})


def add(a, b):
    return lift(_add, [a, b])


def sub(a, b):
    return lift(lambda x, y: _add(x, _neg(y)), [a, b])


def mul(a, b):
    return lift(_mul, [a, b])


def div(a, b):
    return lift(lambda x, y: _mul(x, _inv(y)), [a, b])


def neg(a):
    return lift(_neg, [a])


NONZERO = {'fld:PsddLiteralNode::literal_'}
NONNEG = {'size', 'sum1', 'fld:PsddNode::node_index_', 'pos', 'nlines', 'fld:PsddTopNode::true_parameter_', 'fld:PsddTopNode::false_parameter_'}


def nonneg(t):
    if isnum(t):
        return t.args[0] >= 0
    if t.op == 'poly':
        return all(cf > 0 and all(nonneg(x) or e % 2 == 0 for x, e in m) for m, cf in t.args[0])
    if t.op == 'sym':
        return str(t.args[0]).startswith(('u:', 'b', 'k#')) or str(t.args[0]).startswith('al!') and str(t.args[0]).endswith('.i')
    if t.op == 'elem' and t.args[0].op == 'fld:PsddDecisionNode::parameters_':
        return True     # probabilities
    return t.op in NONNEG or t.op.startswith(('rd:unsigned', 'u:'))


def _cmpatom(d, integer):
    """d: poly dict (a-b). returns (atom, flip, const) or python sign if constant"""
    p = {m: cf for m, cf in d.items() if cf != 0}
    const = p.pop((), Fraction(0))
    if not p:
        return None, None, (const > 0) - (const < 0)
    lead = sorted(p.items(), key=lambda kv: tuple((x.id, e) for x, e in kv[0]))[0][1]
    flip = lead < 0
    s = abs(lead) if not integer else Fraction(1)
    sg = -1 if flip else 1
    q = from_poly({m: sg * cf / s for m, cf in p.items()})
    return q, flip, sg * const / s


def _mkac(q, k, vals, integer=True):
    """vals for (<,=,>) of q versus constant k"""
    at = mkT('ac', (q, c(k), 'i' if integer else 'r'))
    vals = list(vals)
    if k < 0 and nonneg(q):
        return vals[2]
    if k == 0 and nonneg(q):
        vals[0] = vals[1]
    if k == 0 and q.op in NONZERO:
        vals[1] = vals[0]
    return mk(at, vals) if not all(v is vals[0] for v in vals) else vals[0]


def compare(op, a, b, integer=True):
    """boolean value for a op b, op in < <= > >= == !=  (numeric)"""
    def f(x, y):
        if x is BOT or y is BOT:
            return BOT
        if isc(x) and isc(y) and not (isnum(x) and isnum(y)):
            if op in ('==', '!='):
                same = x is y
                if isinstance(cval(x), bool) != isinstance(cval(y), bool) and isinstance(cval(x), (int, bool)) and isinstance(cval(y), (int, bool)):
                    same = int(cval(x)) == int(cval(y))
                return TRUE if same == (op == '==') else FALSE
        p = dict(poly_of(x))
        for m, cf in poly_of(y).items():
            p[m] = p.get(m, 0) - cf
        q, flip, k = _cmpatom(p, integer)
        if q is None:
            return TRUE if {'<': k < 0, '<=': k <= 0, '>': k > 0, '>=': k >= 0, '==': k == 0, '!=': k != 0}[op] else FALSE
        # q*sg + k  op 0   ->  (flip ? reverse)  q op' -k
        o = op
        if flip:
            o = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(op, op)
        k = -k
        if integer and k.denominator == 1:
            if o == '<' and k >= 1:
                o, k = '<=', k - 1
            elif o == '<=' and k <= -1:
                o, k = '<', k + 1
            elif o == '>' and k <= -1:
                o, k = '>=', k + 1
            elif o == '>=' and k >= 1:
                o, k = '>', k - 1
        tv = {'<': (1, 0, 0), '<=': (1, 1, 0), '>': (0, 0, 1), '>=': (0, 1, 1), '==': (0, 1, 0), '!=': (1, 0, 1)}[o]
        if k == 0 and nonneg(q):
            # '<' impossible
            tv = (tv[1], tv[1], tv[2])
        return _mkac(q, k, [TRUE if z else FALSE for z in tv], integer)
    return lift(f, [a, b])


NONNULL = set()
MAPDEF = {}      # map-typed field -> what its operator[] makes for a new key


def nonnull(t):
    return t.op in ('box', 'ptr', 'uniq') or (t.op == 'elem' and t.args[0].op in NONNULL) or t.op in NONNULL or \
        (t.op == 'sym' and str(t.args[0]).startswith('nn:'))


DISTINCT = []


def distinct(a, b):
    if a is b:
        return False
    if isc(a) and isc(b):
        return True
    if vtdistinct(a, b):
        return True
    for f in DISTINCT:
        if f(a, b):
            return True
    if a.op in ('loc', 'ptr') and b.op in ('loc', 'ptr') and a.op == b.op:
        return True
    p = dict(poly_of(a))
    for m, cf in poly_of(b).items():
        p[m] = p.get(m, 0) - cf
    p = {m: cf for m, cf in p.items() if cf != 0}
    if len(p) == 1:
        (m, _), = p.items()
        if len(m) == 1 and m[0][0].op in NONZERO:
            return True
    return set(p) == {()}


def vtdistinct(x, y):
    # the two children of a vtree node differ, and a node is not its own child
    if x.op == 'vt:pos' and y.op == 'vt:pos':
        return vtdistinct(x.args[0], y.args[0])
    if x.op in ('vt:left', 'vt:right') and y.op in ('vt:left', 'vt:right') and x.op != y.op and x.args[0] is y.args[0]:
        return True
    for u, v in ((x, y), (y, x)):
        while u.op in ('vt:left', 'vt:right'):
            u = u.args[0]
            if u is v:
                return True
    return False


def eq(a, b, numeric=False, integer=True):
    """equality of non-numeric (pointers, opaque objects, strings) values"""
    if numeric:
        return compare('==', a, b, integer)

    def f(x, y):
        if x is BOT or y is BOT:
            return BOT
        if x is y:
            return TRUE
        for u, v in ((x, y), (y, x)):
            if v is NULL and nonnull(u):
                return FALSE
            if v is ZERO and nonnull(u):
                return FALSE
        if x is ZERO:
            x = NULL
        if y is ZERO:
            y = NULL
        if x is y:
            return TRUE
        if distinct(x, y):
            return FALSE
        if x.id > y.id:
            x, y = y, x
        return asbool(mkT('eq', (x, y)))
    return lift(f, [a, b])


# ---------------------------------------------------------------- generic application
SIMP = {}


def app(op, *args):
    s = SIMP.get(op)
    ts = [a for a in args if isinstance(a, T)]
    if len(ts) == len(args):
        return lift((lambda *xs: (s(*xs) if s else mkT(op, xs)) if not any(x is BOT for x in xs) else BOT), list(args))
    idx = [i for i, a in enumerate(args) if isinstance(a, T)]

    def f(*xs):
        if any(x is BOT for x in xs):
            return BOT
        full = list(args)
        for i, x in zip(idx, xs):
            full[i] = x
        return s(*full) if s else mkT(op, tuple(full))
    return lift(f, ts)


# ---------------------------------------------------------------- structure
def pair(a, b):
    return mkT('pair', (a, b))


def fst(p):
    return lift(lambda x: x.args[0] if x.op == 'pair' else (BOT if x is BOT else mkT('fst', (x,))), [p])


def snd(p):
    return lift(lambda x: x.args[1] if x.op == 'pair' else (BOT if x is BOT else mkT('snd', (x,))), [p])


def rec(cls, fields):
    return mkT('rec', (cls, tuple(sorted(fields.items()))))


def getf(v, f):
    def g(x):
        if x is BOT:
            return BOT
        if x.op == 'rec':
            for n, w in x.args[1]:
                if n == f:
                    return w
        return mkT('fld:' + f, (x,))
    return lift(g, [v])


def setf(v, f, w):
    def g(x):
        if x is BOT:
            return BOT
        d = {}
        base = x
        if x.op == 'rec':
            d = dict(x.args[1])
            d[f] = w
            return mkT('rec', (x.args[0], tuple(sorted(d.items()))))
        if x.op == 'upd':
            d = dict(x.args[1])
            base = x.args[0]
        d[f] = w
        return mkT('upd', (base, tuple(sorted(d.items()))))
    return lift(g, [v])


_getf0 = getf


def getf(v, f):  # noqa: F811
    def g(x):
        if x is BOT:
            return BOT
        if x.op in ('rec', 'upd'):
            for n, w in x.args[1]:
                if n == f:
                    return w
            if x.op == 'upd':
                return getf(x.args[0], f)
        if x.op == 'box' and not f.rpartition('>')[2]:
            return x.args[0]        # the content of the cell
        return mkT('fld:' + f, (x,))
    return lift(g, [v])


def store(a, k, v):
    """functional update; v is kept lazily"""
    def f(x, kk):
        if x is BOT or kk is BOT:
            return BOT
        if x.op == 'store':
            if x.args[1] is kk:
                return f(x.args[0], kk) if False else _st(x.args[0], kk, v)
            # commute stores to provably distinct keys into canonical order
            if distinct(x.args[1], kk) and x.args[1].id > kk.id:
                return _st(f(x.args[0], kk), x.args[1], x.args[2])
        if x.op == 'vlit' and isnum(kk) and 0 <= cval(kk) < len(x.args):
            xs = list(x.args)
            xs[cval(kk)] = v
            return mkT('vlit', tuple(xs))
        if x.op == 'cat':
            at = ZERO
            for i, q in enumerate(x.args):
                if q.op == 'vlit':
                    d = sub(kk, at)
                    if isnum(d) and 0 <= cval(d) < len(q.args):
                        xs = list(q.args)
                        xs[cval(d)] = v
                        return cat(*(x.args[:i] + (mkT('vlit', tuple(xs)),) + x.args[i + 1:]))
                at = add(at, size(q))
        return _st(x, kk, v)
    return lift(f, [a, k])


def _st(x, k, v):
    if v.op == 'elem' and v.args[0] is x and v.args[1] is k:
        return x
    if v.op == 'fld:' and False:
        return x
    if x.op == 'arr0' and v.op == 'fld:' + str(x.args[0]) and v.args[0] is k:
        return x
    return mkT('store', (x, k, v))


SELHOOK = []


def unabs(x):
    """the value a store wrote; the marker for "left absent" reads as the default"""
    if x.args[0].op != 'mempty':
        return x.args[2]
    ab = mkT('elem', (x.args[0], x.args[1]))
    return lift(lambda l: x.args[0].args[0] if l is ab else l, [x.args[2]])


OOB = [None]     # what reading past the end gives (nothing, where evaluation is strict)


def sel(a, k):
    def f(x, kk):
        if x is BOT or kk is BOT:
            return BOT
        if x.op == 'store':
            if x.args[1] is kk:
                return unabs(x)
            if distinct(x.args[1], kk):
                return f(x.args[0], kk)
            return ite(eq(x.args[1], kk), unabs(x), sel(x.args[0], kk))
        if x.op == 'arr0':
            return mkT('fld:' + str(x.args[0]), (kk,))
        if x.op == 'mempty':
            return x.args[0]
        if x.op == 'vlit' and isnum(kk):
            i = cval(kk)
            return x.args[i] if 0 <= i < len(x.args) else OOB[0] or BOT
        if x.op == 'tab':
            return inst(x, kk)
        if x.op == 'vfill':
            return x.args[1]
        for h in SELHOOK:
            r = h(x, kk)
            if r is not None:
                return r
        return mkT('elem', (x, kk))
    return lift(f, [a, k])


HASHOOK = []


def has(m, k):
    def f(x, kk):
        if x is BOT or kk is BOT:
            return BOT
        if x.op == 'store':
            if x.args[1] is kk:
                ab = mkT('elem', (x.args[0], kk))
                return lift(lambda l: has(x.args[0], kk) if l is ab else TRUE, [x.args[2]])
            if distinct(x.args[1], kk):
                return has(x.args[0], kk)
            ab = mkT('elem', (x.args[0], x.args[1]))
            return ite(eq(x.args[1], kk), lift(lambda l: has(x.args[0], x.args[1]) if l is ab else TRUE, [x.args[2]]), has(x.args[0], kk))
        if x.op == 'erase':
            return band(bnot(eq(x.args[1], kk)), has(x.args[0], kk))
        if x.op == 'mempty':
            return FALSE
        for h in HASHOOK:
            r = h(x, kk)
            if r is not None:
                return r
        return asbool(mkT('has', (x, kk)))
    return lift(f, [m, k])


SIZEHOOK = []


MAPSYMS = set()


def linear(t, n):
    """t = p*n + q with numbers p and q"""
    return all(m in ((), ((n, 1),)) for m in poly_of(t))


def ismap(v):
    """an associative container: writing an element can change its size"""
    b, _ = arrbase(v)
    if b.op == 'mempty' or (b.op == 'sym' and (b.args[0] in MAPSYMS or str(b.args[0]).startswith('c!m'))):
        return True
    if b.op == 'ite':
        return any(ismap(a) for a in b.args[1:])
    if b.op == 'lst':
        return ismap(b.args[0])
    if b.op == 'recur' and isinstance(b.args[3], tuple) and isinstance(b.args[5], int):
        return ismap(b.args[3][b.args[5]])
    return False


def size(v):
    def f(x):
        if x is BOT:
            return BOT
        if x.op == 'vlit':
            return c(len(x.args))
        if x.op == 'tab':
            return x.args[0]
        if x.op == 'vfill':
            return x.args[0]
        if x.op == 'store':
            b, _ = arrbase(x)
            if not ismap(b):
                return size(b)
        if x.op == 'mempty':
            return ZERO
        if x.op == 'c' and isinstance(x.args[0], str):
            return c(len(x.args[0]))
        if x.op == 'cat':
            r = ZERO
            for p in x.args:
                r = add(r, size(p))
            return r
        for h in SIZEHOOK:
            r = h(x)
            if r is not None:
                return r
        return mkT('size', (x,))
    return lift(f, [v])


def cat(*parts):
    """monoid of sequences / strings"""
    def f(*ps):
        out = []
        for p in ps:
            if p is BOT:
                return BOT
            for q in (p.args if p.op == 'cat' else (p,)):
                if q.op == 'vlit' and not q.args:
                    continue
                if q.op == 'mempty':
                    continue
                if q.op == 'c' and q.args[0] == '':
                    continue
                if out and q.op == 'vlit' and out[-1].op == 'vlit':
                    out[-1] = mkT('vlit', out[-1].args + q.args)
                elif out and q.op == 'c' and out[-1].op == 'c' and isinstance(q.args[0], str) and isinstance(out[-1].args[0], str):
                    out[-1] = c(out[-1].args[0] + q.args[0])
                else:
                    out.append(q)
        if not out:
            return ps[0] if ps else mkT('vlit', ())
        if len(out) == 1:
            return out[0]
        return mkT('cat', tuple(out))
    return lift(f, list(parts))


# ---------------------------------------------------------------- substitution / binders
def binder(op, *args):
    """args layout for binder ops: (N, dir, names tuple, inits tuple, bodies tuple, *rest)"""
    raise NotImplementedError


def canon(names, bodies):
    """rename fresh bound names to height-canonical ones; returns (newnames, newbodies)"""
    h = 1 + max([b.h for b in bodies] + [0])
    new = tuple('b%d' % h if i == 0 else 'b%d.%d' % (h, i) for i in range(len(names)))
    if new == tuple(names):
        return new, tuple(bodies)
    m = {sym(o): sym(n) for o, n in zip(names, new)}
    # names may overlap with canonical ones after substitution: go through temporaries
    if set(new) & set(names):
        tmp = {sym(o): sym('tmp!%s' % o) for o in names}
        bodies = [subst(b, tmp) for b in bodies]
        m = {sym('tmp!%s' % o): sym(n) for o, n in zip(names, new)}
    return new, tuple(subst(b, m) for b in bodies)


def inst(tb, i):
    """instantiate tab/gen body at index i"""
    return subst(tb.args[2], {sym(tb.args[1]): i})


REBUILD = {}


def subst(t, m, memo=None):
    if not m:
        return t
    keys = frozenset(k.args[0] for k in m if k.op == 'sym')
    allsym = all(k.op == 'sym' for k in m)
    memo = {} if memo is None else memo

    def go(x):
        r = m.get(x)
        if r is not None:
            return r
        if allsym and not (x.free & keys):
            return x
        r = memo.get(x.id)
        if r is None:
            r = rebuild(x, go)
            memo[x.id] = r
        return r
    return go(t)


def rebuild(x, go):
    op = x.op
    a = x.args
    if op in ('c', 'sym', 'top', 'bot'):
        return x
    if op == 'ite':
        at = a[0]
        bs = [go(b) for b in a[1:]]
        if at.op == 'ab':
            inner = at.args[0]
            if inner.op == 'eq':
                cn = eq(go(inner.args[0]), go(inner.args[1]))
            elif inner.op == 'has':
                cn = has(go(inner.args[0]), go(inner.args[1]))
            else:
                cn = asbool(go(inner))
            return ite(cn, bs[0], bs[1])
        if at.op == 'ak':
            return kindsel(go(at.args[0]), bs)
        if at.op == 'ac':
            p, k, fl = at.args
            np = go(p)
            if np is p:
                return mkord(at, bs)
            lt = compare('<', np, k, integer=fl == 'i')
            e = compare('==', np, k, integer=fl == 'i')
            return ite(lt, bs[0], ite(e, bs[1], bs[2]))
    if op == 'poly':
        r = ZERO
        for m, cf in a[0]:
            tt = c(cf)
            for y, e in m:
                z = go(y)
                for _ in range(abs(e)):
                    tt = mul(tt, z) if e > 0 else div(tt, z)
            r = add(r, tt)
        return r
    if op == 'store':
        return store(go(a[0]), go(a[1]), go(a[2]))
    if op in ('elem', 'sel'):
        return sel(go(a[0]), go(a[1]))
    if op == 'size':
        return size(go(a[0]))
    if op == 'cat':
        return cat(*[go(p) for p in a])
    if op == 'fst':
        return fst(go(a[0]))
    if op == 'snd':
        return snd(go(a[0]))
    if op in ('pair', 'vlit'):
        return mkT(op, tuple(go(y) for y in a))
    if op == 'vfill':
        return mkT(op, (go(a[0]), go(a[1])))
    if op in ('rec', 'upd'):
        b0 = go(a[0]) if isinstance(a[0], T) else a[0]
        return mkT(op, (b0, tuple((f, go(v)) for f, v in a[1])))
    if op == 'eq':
        return eq(go(a[0]), go(a[1]))
    if op in REBUILD:
        return REBUILD[op](x, go)
    if op.startswith('fld:') and len(a) == 1:
        return getf(go(a[0]), op[4:])
    na = tuple(_gotup(y, go) for y in a)
    if any(isinstance(y, tuple) for y in na):
        return mkT(op, na)
    return app(op, *na)


def _gotup(y, go):
    if isinstance(y, T):
        return go(y)
    if isinstance(y, tuple):
        return tuple(_gotup(z, go) for z in y)
    return y


def kindsel(n, bs):
    """choose by dynamic kind of node n"""
    def f(x):
        if x is BOT or x is NULL:
            return BOT
        if x.op == 'uniq':
            i = 'LTD'.index(x.args[0])
            return bs[i]
        return mkord(mkT('ak', (x,)), bs)
    return lift(f, [n])


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ','.join(show(x, d) for x in t) + ')'
        return str(t)
    if d > 14:
        return '…'
    o = t.op
    a = t.args
    if o == 'c':
        return repr(a[0]) if isinstance(a[0], str) else ('null' if a[0] is None else str(a[0]))
    if o == 'sym':
        return str(a[0])
    if o == 'ite':
        at = a[0]
        if at.op == 'ab':
            if a[1] is TRUE and a[2] is FALSE:
                return show(at.args[0], d + 1)
            if a[1] is FALSE and a[2] is TRUE:
                return '!' + show(at.args[0], d + 1)
            return 'if(%s){%s}else{%s}' % (show(at.args[0], d + 1), show(a[1], d + 1), show(a[2], d + 1))
        if at.op == 'ak':
            return 'kind(%s){L:%s|T:%s|D:%s}' % ((show(at.args[0], d + 1),) + tuple(show(b, d + 1) for b in a[1:]))
        return 'cmp(%s,%s){<:%s|=:%s|>:%s}' % ((show(at.args[0], d + 1), show(at.args[1], d + 1)) + tuple(show(b, d + 1) for b in a[1:]))
    if o == 'poly':
        out = []
        for m, cf in a[0]:
            s = '*'.join(show(x, d + 1) + ('^%d' % e if e != 1 else '') for x, e in m)
            if cf != 1 or not s:
                s = (str(cf) + '*' + s) if s else str(cf)
            out.append(s)
        return '(' + ' + '.join(out) + ')'
    if o.startswith('fld:'):
        return show(a[0], d + 1) + '.' + o.split('::')[-1]
    return o + '(' + ', '.join(show(x, d + 1) for x in a) + ')'


def mapterms(v, m):
    """v with whole subterms exchanged"""
    memo = {}
    names = {n for k in m for n in k.free}

    def go(t):
        if t in m:
            return m[t]
        if not (t.free & names):
            return t
        r = memo.get(t.id)
        if r is None:
            r = memo[t.id] = rebuild(t, go)
        return r
    return go(v)
