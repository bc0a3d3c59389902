"""Binder constructors (loop summaries) in canonical form."""
from terms import *
from terms import _pmul, _top  # noqa
import terms as TT


def hoist(bodies, names, build):
    """pull choices that do not depend on the bound names out of the bodies"""
    bound = set(names)
    best = None
    for b in bodies:
        for a in atoms(b):
            if not (a.free & bound) and (best is None or a.id < best.id):
                best = a
    if best is None:
        return build(tuple(bodies))
    return mkord(best, [hoist([cofactor(b, best, i) for b in bodies], names, build) for i in range(dom(best))])


def boundfact(v, name, N):
    """decide the comparisons settled by 0 <= name < N"""
    if N.op == 'ite':
        return v
    d = None
    for at in sorted(set(atoms(v)), key=lambda a: a.id):
        if at.op != 'ac' or name not in at.free:
            continue
        q, k, fl = at.args
        p = poly_of(q)
        for n2 in (sub(sym(name), N),):
            d = TT._add(q, TT._neg(n2))
            if isnum(d):         # q = name - N + d  in [-N+d, d-1]
                if d.args[0] - 1 < k.args[0]:
                    v = cofactor(v, at, 0)
                elif d.args[0] - 1 == k.args[0]:
                    pass
            d = TT._add(q, n2)
            if isnum(d):         # q = N - name + d >= 1 + d
                if d.args[0] + 1 > k.args[0]:
                    v = cofactor(v, at, 2)
    return v


def _liftN(N, f):
    return lift(f, [N])


def mk_tab(N, name, body):
    body = boundfact(body, name, N)

    def f(n):
        if n is BOT:
            return BOT

        def bld(bs):
            b, = bs
            # eta
            if b.op == 'elem' and b.args[1] is sym(name) and name not in b.args[0].free and size(b.args[0]) is n:
                return b.args[0]
            if name not in b.free:
                return mkT('vfill', (n, b))
            nm, (b2,) = canon((name,), (b,))
            return mkT('tab', (n, nm[0], b2), bound=nm)
        return hoistN([body], (name,), bld)
    return _liftN(N, f)


def hoistN(bodies, names, bld):
    return hoist(bodies, names, bld)


def mk_sum(N, name, body, op='sum'):
    body = boundfact(body, name, N)

    def f(n):
        if n is BOT:
            return BOT
        if n is ZERO:
            return ZERO if op == 'sum' else ONE

        def bld(bs):
            b, = bs
            if n is ONE:
                return subst(b, {sym(name): ZERO})
            if b is BOT:
                return BOT
            if name not in b.free:
                if op == 'sum':
                    return mul(b, n)
                return mkT('pow', (b, n))
            if op == 'sum' and b.op != 'ite':
                p = poly_of(b)
                tot = ZERO
                if len(p) > 1 or (len(p) == 1 and any(name not in x.free for x, _ in list(p)[0])) or list(p.values())[0] != 1:
                    for m, cf in p.items():
                        out = tuple((x, e) for x, e in m if name not in x.free)
                        inn = tuple((x, e) for x, e in m if name in x.free)
                        tot = add(tot, mul(from_poly({out: cf}), bld((from_poly({inn: 1}),))))
                    return tot
            nm, (b2,) = canon((name,), (b,))
            return mkT(op, (n, nm[0], b2), bound=nm)
        return hoistN([body], (name,), bld)
    return _liftN(N, f)


def mk_exists(N, name, body):
    body = boundfact(body, name, N)

    def f(n):
        if n is BOT:
            return BOT
        if n is ZERO:
            return FALSE

        def bld(bs):
            b, = bs
            if b is FALSE:
                return FALSE
            if name not in b.free:
                return band(b, compare('>', n, ZERO))
            # distribute over disjunction is not done: the body is canonical already
            nm, (b2,) = canon((name,), (b,))
            return asbool(mkT('exists', (n, nm[0], b2), bound=nm))
        return hoistN([body], (name,), bld)
    return _liftN(N, f)


def mk_first(N, dr, name, cnd, val, default):
    """value of val at the first index satisfying cnd, else default"""
    cnd = boundfact(cnd, name, N)
    val = restrict(boundfact(val, name, N), cnd)
    if name not in val.free:
        return ite(mk_exists(N, name, cnd), val, default)

    def f(n):
        def bld(bs):
            cb, vb = bs
            if cb is FALSE:
                return default
            vb = restrict(vb, cb)
            if name not in vb.free:
                return ite(mk_exists(n, name, cb), vb, default)
            nm, (c2, v2) = canon((name,), (cb, vb))
            return ite(mk_exists(n, name, cb), mkT('first', (n, dr, nm[0], c2, v2), bound=nm), default)
        return hoistN([cnd, val], (name,), bld)
    return _liftN(N, f)


def mk_fold(op, N, dr, name, body, init):
    def f(n, i0):
        if n is ZERO:
            return i0
        def bld(bs):
            nm, (b2,) = canon((name,), bs)
            return mkT('fold:' + op, (n, nm[0], b2, i0), bound=nm)
        return hoistN([body], (name,), bld)
    return lift(f, [N, init])


def mk_gen(N, dr, name, body):
    """sequence obtained by concatenating body over the range"""
    body = boundfact(body, name, N)
    def f(n):
        if n is BOT:
            return BOT
        if n is ZERO:
            return mkT('vlit', ())

        def bld(bs):
            b, = bs
            if b.op == 'vlit' and not b.args:
                return b
            if b.op == 'c' and b.args[0] == '':
                return b
            if b.op == 'vlit' and len(b.args) == 1:
                if dr == 'asc':
                    return mk_tab(n, name, b.args[0])
                if dr == 'desc':
                    return mk_tab(n, name, subst(b.args[0], {sym(name): sub(sub(n, ONE), sym(name))}))
            nm, (b2,) = canon((name,), (b,))
            return mkT('gen', (n, dr, nm[0], b2), bound=nm)
        return hoistN([body], (name,), bld)
    return _liftN(N, f)


OLD = sym('old!')
COVER = []


def covers(n, name, key, k):
    """does {key(b) : b<n} contain k"""
    if key.op == 'elem' and key.args[1] is sym(name) and n is size(key.args[0]):
        V = key.args[0]
        if k.op == 'elem' and k.args[0] is V:
            return True
        for h in COVER:
            if h(V, k):
                return True
    return False


def strip(base, n, name, key):
    """drop layers of base that a full overwrite of key(b), b<n makes dead"""
    while True:
        if base.op == 'lst' and base.args[1] is n:
            bn = base.args[3]
            if subst(base.args[4], {sym(bn): sym(name)}) is key:
                base = base.args[0]
                continue
        if base.op == 'store' and covers(n, name, key, base.args[1]):
            base = base.args[0]
            continue
        if base.op == 'recur' and (base.args[0] is n or True):
            i = base.args[5]
            st = base.args[4][i]
            names = base.args[2]
            init = base.args[3][i]
            me = sym(names[1 + i])
            ok = True
            q = st
            qs = list(leaves(q))
            for q in qs:
                while q.op == 'store':
                    k2 = q.args[1]
                    if base.args[0] is n and subst(k2, {sym(names[0]): sym(name)}) is key:
                        pass
                    elif covers(n, name, key, k2):
                        pass
                    else:
                        ok = False
                    q = q.args[0]
                if q is not me:
                    ok = False
            if ok and qs:
                base = init
                continue
        if base.op == 'ite':
            bs = [strip(b, n, name, key) for b in base.args[1:]]
            return mkord(base.args[0], bs)
        return base


def mk_lst(base, N, dr, name, key, val):
    """for b<N: base[key(b)] := val(b)   (val may mention OLD = previous content at key(b))"""
    val = boundfact(val, name, N)
    def f(b0, n):
        if b0 is BOT or n is BOT:
            return BOT
        if n is ZERO:
            return b0
        if n is ONE:
            k0 = subst(key, {sym(name): ZERO})
            return store(b0, k0, subst(subst(val, {OLD: sel(b0, k0)}), {sym(name): ZERO}))
        selfread = 'old!' in val.free
        injective = key.op == 'elem' and key.args[1] is sym(name) and name not in key.args[0].free or key is sym(name)
        d2 = 'any' if injective else dr
        # vectors written over their full range become tabulations
        if key is sym(name) and size(b0) is n and b0.op not in ('arr0', 'mempty'):
            return mk_tab(n, name, subst(val, {OLD: sel(b0, sym(name))}))
        b1 = b0
        if not selfread:
            b1 = strip(b0, n, name, key)

        def bld(bs):
            kb, vb = bs
            nm, (k2, v2) = canon((name,), (kb, vb))
            return mkT('lst', (b1, n, d2, nm[0], k2, v2), bound=nm)
        if any(not (a.free & {name, 'old!'}) for a in list(atoms(key)) + list(atoms(val))):
            return hoistN([key, val], (name, 'old!'), bld)
        return bld((key, val))
    return lift(f, [base, N])


def mk_rec(N, dr, names, inits, steps):
    """simultaneous recurrence; returns the tuple of final values"""
    # canonical component order
    m = len(inits)
    idx = names[0]
    cs = list(names[1:])
    steps = frame(idx, cs, inits, steps)
    if m == 1:
        r = try_mu(N, dr, names[0], names[1], inits[0], steps[0]) or try_mtab(N, names[0], names[1], inits[0], steps[0])
        if r is not None:
            return [r]
    if m > 1:
        blind = {sym(x): sym('r*') for x in cs}

        def keyf(i):
            return (inits[i].id, subst(steps[i], blind).id)
        order = sorted(range(m), key=keyf)
    else:
        order = list(range(m))
    cs2 = [cs[i] for i in order]
    in2 = [inits[i] for i in order]
    st2 = [steps[i] for i in order]
    nm, st3 = canon((idx,) + tuple(cs2), tuple(st2))
    outs = []
    for i in range(m):
        outs.append(mkT('recur', (N, dr, nm, tuple(in2), tuple(st3), i), bound=nm))
    res = [None] * m
    for pos, i in enumerate(order):
        res[i] = outs[pos]
    return res


def written(v, s):
    """the keys a step writes in state s, None when it is not a chain of writes on s"""
    out = []
    for q in leaves(v):
        while q is not s:
            if q.op in ('store', 'erase'):
                out.append(q.args[1])
                q = q.args[0]
            elif q.op == 'lst':
                out.append(q.args[4])
                q = q.args[0]
            elif q.op == 'recur':
                i = q.args[5]
                r = written(q.args[4][i], sym(q.args[2][1 + i]))
                if r is None:
                    return None
                out += r
                q = q.args[3][i]
            elif q.op == 'ite':
                for z in q.args[1:]:
                    r = written(z, s)
                    if r is None:
                        return None
                    out += r
                break
            else:
                return None
    return out


def perround(k, idx):
    """keys of different rounds are different"""
    if k.op == 'fld:PsddNode::node_index_':
        k = k.args[0]
    if k.op == 'elem' and k.args[0].op in ('ser', 'vser') and idx not in k.args[0].free:
        k = k.args[1]
    if k.op == 'mkey' and idx not in k.args[0].free:
        k = k.args[1]
    p = poly_of(k) if k.op == 'poly' else {((k, 1),): 1}
    t = [(m, cf) for m, cf in p.items() if any(idx in x.free for x, e in m)]
    return len(t) == 1 and t[0][0] == ((sym(idx), 1),)


def frame(idx, cs, inits, steps):
    """reads of a place no step writes see the initial content"""
    S = {sym(x): i for i, x in enumerate(cs)}
    m = {}
    keys = {}
    seen = set()
    stack = list(steps)
    while stack:
        t = stack.pop()
        if t.id in seen or not (t.free & set(cs)):
            continue
        seen.add(t.id)
        if t.op == 'ite' and t.args[0].op == 'ab' and t.args[0].args[0].op == 'has':
            stack.append(t.args[0].args[0])
        if t.op in ('elem', 'has') and t.args[0] in S and not (t.args[1].free & set(cs)):
            i = S[t.args[0]]
            if i not in keys:
                keys[i] = written(steps[i], t.args[0]) if isinstance(steps[i], T) else None
            k = t.args[1]
            # another place, or one that only this round can write
            if keys[i] is not None and isinstance(inits[i], T) and all(w is k and perround(k, idx) or distinct(subst(w, {sym(idx): sym('k#other')}) if idx in w.free else w, k) for w in keys[i]):
                m[t] = sel(inits[i], k) if t.op == 'elem' else has(inits[i], k)
        ch = []
        TT._collect(t.args, ch)
        stack += ch
    if not m:
        return steps
    memo = {}

    def go(t):
        if t in m:
            return m[t]
        if not (t.free & set(cs)):
            return t
        r = memo.get(t.id)
        if r is None:
            if t.op == 'ite' and t.args[0].op == 'ab' and t.args[0].args[0] in m:
                r = ite(m[t.args[0].args[0]], go(t.args[1]), go(t.args[2]))
            else:
                r = TT.rebuild(t, go)
            memo[t.id] = r
        return r
    return [go(t) for t in steps]


CHILDF = ('fld:PsddDecisionNode::primes_', 'fld:PsddDecisionNode::subs_')


def inser(y, S):
    """is y certainly a member of the serialised closure S"""
    if S.op != 'ser':
        return False
    if y.op == 'elem':
        if y.args[0] is S:
            return True
        if y.args[0].op in CHILDF:
            return inser(y.args[0].args[0], S)
        if y.args[0] is S.args[0]:
            return True
    if S.args[0].op == 'vlit' and y in S.args[0].args:
        return True
    return False


def ischild(y, x):
    return y.op == 'elem' and y.args[0].op in CHILDF and y.args[0].args[0] is x


def below(a, b):
    # a diagram is acyclic: no node is its own descendant
    for x, y in ((a, b), (b, a)):
        while x.op == 'elem' and x.args[0].op in CHILDF:
            x = x.args[0].args[0]
            if x is y:
                return True
    return False


def posdistinct(a, b):
    # positions of different nodes in a serialisation
    for x, y in ((a, b), (b, a)):
        if x.op == 'elem' and x.args[0].op == 'lst':
            b0, n, d, nm, key, val = x.args[0].args
            if key.op == 'elem' and key.args[0].op == 'ser' and key.args[1] is sym(nm) and val is sym(nm):
                S = key.args[0]
                u = x.args[1]
                if y.op == 'elem' and y.args[0] is x.args[0]:
                    return distinct(u, y.args[1])
                if below(u, mkT('elem', (S, y))):
                    return True
    return False


DISTINCT.append(below)
DISTINCT.append(posdistinct)


def mk_mtab(M0, name, keep, val):
    """the container with, for every key b of M0 that keep(b) holds for, the entry val(b)"""
    keep0, val0 = lift(lambda l: TRUE if l is TRUE else (FALSE if l is FALSE else l), [keep]), val
    if keep0 is TRUE and (val0 is sel(M0, sym(name))):
        return M0
    nm, (k2, v2) = canon((name,), (keep0, restrict(val0, keep0) if keep0 is not FALSE else TRUE))
    return mkT('mtab', (M0, nm[0], k2, v2), bound=nm)


def _has_mtab(x, k):
    if x.op == 'mtab':
        M0, nm, keep, val = x.args
        return band(has(M0, k), subst(keep, {sym(nm): k}))
    return None


def _sel_mtab(x, k):
    if x.op == 'mtab':
        M0, nm, keep, val = x.args
        return subst(val, {sym(nm): k})
    return None


def try_mtab(N, idx, me, init, step):
    """a pass over the keys of a container that drops some and rewrites others"""
    if not isinstance(N, T) or N.op != 'size' or N.args[0] is not init:
        return None
    key = mkT('mkey', (init, sym(idx)))
    x = sym(me)
    state = {}

    def leaf(l):
        # what the round does to its own key: (kept?, value)
        ops = []
        while l is not x:
            if l.op in ('store', 'erase') and l.args[1] is key:
                ops.append(l)
                l = l.args[0]
            else:
                return None
        if not ops:
            return TRUE, sel(init, key)
        o = ops[0]
        return (FALSE, BOT) if o.op == 'erase' else (TRUE, o.args[2])
    if any(leaf(l) is None for l in leaves(step)) or step is x:
        return None
    keep = lift(lambda l: leaf(l)[0], [step])
    val = lift(lambda l: leaf(l)[1], [step])
    _top[0] += 1
    b = 'mk!%d' % _top[0]
    keep, val = subst(keep, {key: sym(b)}), subst(val, {key: sym(b)})
    if (keep.free | val.free) & {idx, me}:
        return None
    return mk_mtab(init, b, keep, val)


def keyshape(key, node):
    """'id' / op of the per-node key function, when key is a function of node"""
    if key is node:
        return 'id'
    if key.op == 'fld:PsddNode::node_index_' and key.args[0] is node:
        return key.op
    return None


def unkey(shape, k):
    if shape == 'id':
        return k
    return k.args[0] if k.op == shape else None


def canon_mu(v, selfn, body):
    h = 1 + body.h
    nm = ('nn:m%d' % h, 'f%d' % h)
    m = {sym(v): sym(nm[0]), sym(selfn): sym(nm[1])}
    return nm, subst(body, m)


def mk_mu(v, selfn, body, x):
    """f(x) for the function f(v) = body, where body's recursive calls are self(f, child)"""
    nm, b = canon_mu(v, selfn, body)
    return mkT('mu', (nm[0], nm[1], b, x), bound=nm)


def try_mu(N, dr, idx, me, init, step):
    if not isinstance(N, T) or N.op != 'size' or N.args[0].op != 'ser' or dr != 'desc' or step.op != 'store':
        return None
    S = N.args[0]
    node = mkT('elem', (S, sym(idx)))
    a, key, val = step.args
    shape = keyshape(key, node)
    if a is not sym(me) or shape is None:
        return None
    _top[0] += 1
    vn, sn = 'nn:v!%d' % _top[0], 's!%d' % _top[0]
    bad = []
    memo = {}

    def go(t):
        r = memo.get(t.id)
        if r is not None:
            return r
        if not (t.free & {idx, me}):
            return t
        if t is node:
            r = sym(vn)
        elif t is a:
            bad.append(t)
            r = t
        elif t.op == 'elem' and t.args[0] is a:
            y = unkey(shape, t.args[1])
            if y is not None and ischild(y, node):
                r = mkT('self', (sym(sn), go(y)))
            elif y is node:
                r = sel(init, key)
                r = go(r) if r.id != t.id else r
            else:
                bad.append(t)
                r = t
        elif t.op == 'has' and t.args[0] is a:
            y = unkey(shape, t.args[1])
            if y is not None and ischild(y, node):
                r = TRUE
            else:
                bad.append(t)
                r = t
        elif t.op == 'ite' and t.args[0].op == 'ab' and t.args[0].args[0].op == 'has' and t.args[0].args[0].args[0] is a:
            y = unkey(shape, t.args[0].args[0].args[1])
            if y is not None and ischild(y, node):
                r = go(t.args[1])
            else:
                bad.append(t)
                r = t
        elif t is sym(idx):
            bad.append(t)
            r = t
        else:
            r = TT.rebuild(t, go)
        memo[t.id] = r
        return r
    body = go(val)
    if bad or (body.free & {idx, me}):
        return None
    b = 'k#mu%d' % _top[0]
    nd = mkT('elem', (S, sym(b)))
    k2 = nd if shape == 'id' else mkT(shape, (nd,))
    return mk_lst(init, N, 'asc', b, k2, mk_mu(vn, sn, body, nd))


def solve_key(key, name, j):
    """b with key(b) == j"""
    if key is sym(name):
        return j
    if key.op.startswith('fld:') and j.op == key.op:
        return solve_key(key.args[0], name, j.args[0])
    if key.op == 'elem' and key.args[1] is sym(name) and key.args[0].op == 'ser' and key.args[0].args[0].op == 'vlit' and \
            len(key.args[0].args[0].args) and key.args[0].args[0].args[0] is j:
        return ZERO
    if key.op == 'elem' and key.args[1] is sym(name) and j.op == 'elem' and j.args[0] is key.args[0] and name not in key.args[0].free:
        return j.args[1]
    return None


def nodeof(key):
    return key.args[0] if key.op == 'fld:PsddNode::node_index_' else key


def inrange(n, nm, key, s):
    """is position s among the n positions of the pass: True, a condition, or None when that does not settle it"""
    nd = nodeof(key)
    if nd is sym(nm):
        return compare('<', s, n)
    if nd.op == 'elem' and nd.args[1] is sym(nm):
        if n is size(nd.args[0]):
            return TRUE
        if nd.args[0].op in ('ser', 'vser'):
            return compare('<', s, n)
    return None


def notyet(n, key, k):
    """a parents-first pass that has reached position n has not touched the children of that node"""
    nd = nodeof(key)
    if nd.op != 'elem' or nd.args[0].op not in ('ser',) or (key is nd) != (nodeof(k) is k):
        return False
    y = nodeof(k)
    return below1(y, mkT('elem', (nd.args[0], n)))


def below1(y, x):
    while y.op == 'elem' and y.args[0].op in CHILDF:
        y = y.args[0].args[0]
        if y is x:
            return True
    return False


def _sel_lst(x, k):
    if x.op == 'lst':
        b0, n, d, nm, key, val = x.args
        s = solve_key(key, nm, k)
        rng = inrange(n, nm, key, s) if s is not None else None
        if s is not None and rng is not None:
            v = subst(val, {sym(nm): s})
            if 'old!' in v.free:
                v = subst(v, {OLD: sel(b0, k)})
            return v if rng is TRUE else ite(rng, v, sel(b0, k))
        if notyet(n, key, k):
            return sel(b0, k)
        shape = keyshape(key, key if key.op == 'elem' else key.args[0]) if key.op == 'elem' or key.op == 'fld:PsddNode::node_index_' else None
        if shape is not None:
            nd = key if shape == 'id' else key.args[0]
            y = unkey(shape, k)
            if nd.op == 'elem' and nd.args[1] is sym(nm) and n is size(nd.args[0]) and y is not None and inser(y, nd.args[0]) and 'old!' not in val.free:
                v = subst(val, {nd: y})
                if nm not in v.free:
                    return v
    if x.op == 'pre' and x.args[2] == 'desc' and x.args[0].op == 'lst':
        b0, n, d, nm, key, val = x.args[0].args
        nd = key if key.op == 'elem' else (key.args[0] if key.op == 'fld:PsddNode::node_index_' else None)
        if nd is not None and nd.op == 'elem' and nd.args[0].op == 'ser' and n is mkT('size', (nd.args[0],)):
            shape = keyshape(key, nd)
            y = unkey(shape, k) if shape else None
            if y is not None and ischild(y, mkT('elem', (nd.args[0], x.args[1]))):
                return sel(x.args[0], k)
    return None


def _has_lst(x, k):
    # keys written by a complete pass over a serialisation
    if x.op == 'lst':
        b0, n, d, nm, key, val = x.args
        s = solve_key(key, nm, k)
        rng = inrange(n, nm, key, s) if s is not None else None
        if rng is not None:
            return bor(rng, has(b0, k))
        if notyet(n, key, k):
            return has(b0, k)
        nd = key if key.op == 'elem' else (key.args[0] if key.op == 'fld:PsddNode::node_index_' else None)
        shape = keyshape(key, nd) if nd is not None else None
        if shape is not None and nd.op == 'elem' and n is size(nd.args[0]):
            y = unkey(shape, k)
            if y is not None and inser(y, nd.args[0]):
                return TRUE
    if x.op == 'pre' and x.args[2] == 'desc' and x.args[0].op == 'lst':
        b0, n, d, nm, key, val = x.args[0].args
        nd = key if key.op == 'elem' else (key.args[0] if key.op == 'fld:PsddNode::node_index_' else None)
        shape = keyshape(key, nd) if nd is not None else None
        if shape is not None and nd.op == 'elem' and nd.args[0].op == 'ser' and n is mkT('size', (nd.args[0],)):
            y = unkey(shape, k)
            if y is not None and ischild(y, mkT('elem', (nd.args[0], x.args[1]))):
                return TRUE
    return None


HASHOOK.append(_has_lst)
HASHOOK.append(_has_mtab)
SELHOOK.append(_sel_mtab)
SELHOOK.append(_sel_lst)


def _size(x):
    if x.op == 'gen':
        n, d, nm, b = x.args
        return mk_sum(n, nm, size(b))
    if x.op == 'lst' and not TT.ismap(x.args[0]):
        return size(x.args[0])
    return None


SIZEHOOK.append(_size)


def _gt(t, go):
    return tuple(go(y) if isinstance(y, T) else (_gt(y, go) if isinstance(y, tuple) else y) for y in t)


REBUILD.update({
    'tab': lambda x, go: mk_tab(go(x.args[0]), x.args[1], go(x.args[2])),
    'sum': lambda x, go: mk_sum(go(x.args[0]), x.args[1], go(x.args[2])),
    'prod': lambda x, go: mk_sum(go(x.args[0]), x.args[1], go(x.args[2]), 'prod'),
    'exists': lambda x, go: mk_exists(go(x.args[0]), x.args[1], go(x.args[2])),
    'first': lambda x, go: mk_first(go(x.args[0]), x.args[1], x.args[2], go(x.args[3]), go(x.args[4]), BOT),
    'gen': lambda x, go: mk_gen(go(x.args[0]), x.args[1], x.args[2], go(x.args[3])),
    'lst': lambda x, go: mk_lst(go(x.args[0]), go(x.args[1]), x.args[2], x.args[3], go(x.args[4]), go(x.args[5])),
    'recur': lambda x, go: mk_rec(go(x.args[0]) if isinstance(x.args[0], T) else x.args[0], x.args[1], x.args[2],
                                _gt(x.args[3], go), _gt(x.args[4], go))[0] if len(x.args[3]) == 1 else _recn(x, go),
    'mu': lambda x, go: mk_mu(x.args[0], x.args[1], go(x.args[2]), go(x.args[3])),
    'mtab': lambda x, go: mk_mtab(go(x.args[0]), x.args[1], go(x.args[2]), go(x.args[3])),
    'pre': lambda x, go: lift(lambda k: mkT('pre', (go(x.args[0]), k, x.args[2])), [go(x.args[1])]),
    'lam': lambda x, go: mk_lam(x.args[0], go(x.args[1])),
})


def _recn(x, go):
    r = mk_rec(go(x.args[0]) if isinstance(x.args[0], T) else x.args[0], x.args[1], x.args[2], _gt(x.args[3], go), _gt(x.args[4], go))
    return r[x.args[5]]


def mk_lam(names, body):
    nm, (b,) = canon(tuple(names), (body,))
    return mkT('lam', (nm, b), bound=nm)


def _rebuild_fold(x, go):
    n, nm, b, i0 = x.args
    return mk_fold(x.op[5:], go(n), 'any', nm, go(b), go(i0))


_rb = TT.rebuild


def rebuild2(x, go):
    if x.op.startswith('fold:'):
        return _rebuild_fold(x, go)
    return _rb(x, go)


TT.rebuild = rebuild2
