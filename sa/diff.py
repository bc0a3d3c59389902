"""Three-valued comparison of two canonical value graphs: SAME / DEF (a definite
semantic difference, with the path to it) / UND (different shape, not decided)."""
import itertools
import re
import math
import time
from binders import *
from terms import _pmul
import terms as TT
import peel
from exec import subterms

SAME, UND, DEF = 0, 1, 2
PEEL = 8        # seconds spent on writing loops out
PEELLEFT = [40]  # and what one obligation has left for it
DBG = 0
SUMMARY = {'recur', 'first', 'exists', 'gen', 'lst', 'sum', 'prod', 'tab', 'mu', 'lam', 'pre', 'pow'}
SIMPLE = {'c', 'sym', 'elem', 'size', 'pair', 'fst', 'snd', 'has', 'poly', 'vlit', 'log', 'exp', 'str', 'strd', 'self', 'mempty', 'uniq', 'uniq1',
          'litnode', 'topnode', 'conf', 'truenode', 'norm', 'ser', 'vser', 'covered', 'cat', 'arr0', 'rec', 'eq', 'ptr', 'loc', 'L.fld', 'L.obj', 'L.idx',
          'max', 'min', 'abs', 'store', 'sort', 'rev', 'vfill', 'newnode', 'topo', 'fn', 'mkey', 'nlines', 'ln', 'lnok', 'box', 'undef', 'upd', 'inv0',
          'abort', 'exit', 'draw', 'newleaf', 'newint', 'sdd_true', 'sdd_false', 'sdd_lit', 'sddfn', 'nprod', 'nconst', 'ofs', 'trunc', 'drop1', 'dropb', 'idiv', 'imod', 'mod', 'xor', 'erase', 'sddmgr', 'skip', 'streamok', 'ifs', 'iss', 'advln', 'word', 'bs:none', 'wrap64', 'wrap32', 'wrap16', 'wrap15', 'wrap8', 'wrap7', 'single'}
SIMPLEP = ('fld:', 'vt:', 'sdd:', 'rd', 'topo:', 'mu:', 'muout', 'ac:', 'tok', 'hash', 'narrow', 'fn:', 'num:', 'rng:')
SHARE = {'recur', 'first'}
# what a loop asks in every round, and a test before the loop may ask for its first
WITHIN = {'streamok', 'has', 'tok', 'rdi', 'rdd', 'rds'}
CONSTR = {'pair', 'vlit', 'rec', 'box', 'newnode', 'uniq', 'uniq1', 'cat', 'store', 'mu', 'recur', 'gen', 'tab', 'lst', 'first', 'lam', 'topnode', 'litnode', 'truenode', 'nprod'}
# different abstractions that may denote the same object
ABSTR = {'uniq', 'uniq1', 'conf', 'truenode', 'norm', 'topnode', 'litnode', 'ser', 'covered', 'vser'}


def simple1(t):
    return t.op in SIMPLE or t.op.startswith(SIMPLEP)


def has_sub(t, v):
    return any(x is v for x in subterms(t))


def replace(t, v, u):
    memo = {}

    def go(x):
        if x is v:
            return u
        r = memo.get(x.id)
        if r is None:
            r = memo[x.id] = TT.rebuild(x, go)
        return r
    return go(t)


def inst3(t, j):
    return subst(t.args[2], {sym(t.args[1]): j})


def nodeat(t):
    """the vtree node a node belongs to"""
    return t.args[1] if t.op in ('norm', 'truenode', 'uniq') else None


def strictly(u, v):
    """v is an ancestor of u, by its name"""
    while v.op == 'vt:parent':
        v = v.args[0]
        if v is u:
            return True
    while u.op in ('vt:left', 'vt:right'):
        u = u.args[0]
        if u is v:
            return True
    return False


def ground(t):
    """the value of a number built from constants, logarithms and exponentials only"""
    try:
        if t.op == 'poly':
            r = 0.0
            for m, cf in t.args[0]:
                v = float(cf)
                for f, e in m:
                    g = ground(f)
                    if g is None:
                        return None
                    v *= g ** e
                r += v
            return r
        if t.op == 'c' and not isinstance(t.args[0], (str, bool)):
            return float(t.args[0])
        if t.op in ('log', 'exp') and len(t.args) == 1:
            g = ground(t.args[0])
            return None if g is None else getattr(math, t.op)(g)
    except (ValueError, OverflowError, ZeroDivisionError, TypeError):
        pass
    return None


class Diff:
    def __init__(self, budget=60000, rw=None):
        self.rw = rw or (lambda t: t)
        self.memo = {}
        self.memop = {}
        self.pruned = 0
        self.depth = 0
        self.pairs = 40
        self.absts = 25
        self.unfolds = 0
        self.budget = budget
        self.simp = {}
        self.why = []
        self.inits = {}

    # all constructs on the term are understood and it contains no loop summary
    def ground(self, t):
        r = self.simp.get(t.id)
        if r is None:
            if t.op == 'ite':
                at = t.args[0]
                subs = [x for x in at.args if isinstance(x, T)] + list(t.args[1:])
                r = all(self.ground(x) for x in subs)
            elif t.op == 'lst' and t.args[0].op in ('mempty', 'arr0') and not t.taint:
                # a map filled once per element: an index, not an accumulation
                key, val = t.args[4], t.args[5]
                r = 'old!' not in val.free and self.ground(t.args[0]) and self.ground(t.args[1]) and self.ground(key) and self.ground(val)
            elif not simple1(t) or t.taint:
                r = False
            else:
                col = []
                TT._collect(t.args, col)
                r = all(self.ground(x) for x in col)
            self.simp[t.id] = r
        return r

    def hassum(self, t):
        return any(x.op in SUMMARY or x.op.startswith('fold:') for x in subterms(t))

    def atomok(self, at):
        if at.taint:
            return False
        if at.op == 'ab' and at.args[0].op in ('sdd:istrue', 'sdd:isfalse', 'sdd:islit', 'sdd:isdec') and at.args[0].args[0].op.startswith(('ac:', 'fold:')):
            return False        # what a formula comes to is not free
        if at.op == 'ac' and any(x.op == 'nconst' for x in subterms(at.args[0])):
            return False        # nor is what normalising a product takes out
        return all(self.ground(x) for x in at.args if isinstance(x, T))

    def reordered(self, a, b):
        """the same products in another order"""
        n = 0
        try:
            for s in peel.shapes(a, b, calls=True):
                x, y = peel.shaped(s, a, b)
                if Diff(budget=4000, rw=self.rw).cmp(x, y, s.path)[0] != SAME:
                    return False
                n += 1
        except (peel.Large, TT.Blowup, RecursionError):
            return False
        return n > 0

    def run(self, spec, impl):
        r = self.run1(spec, impl)
        if r[0] == DEF and isinstance(spec, T) and isinstance(impl, T) and any(x.op == 'fn:compile_factor' for x in subterms(spec)) and self.reordered(spec, impl):
            r = (UND,) + r[1:]
        return r

    def run1(self, spec, impl):
        """returns (verdict, path, a, b)"""
        r = self.cmp(spec, impl, {})
        if r[0] == DEF and isinstance(spec, T) and isinstance(impl, T) and self.recops(impl) - self.recops(spec):
            r = (UND,) + r[1:]      # the code recurses in another way
        if r[0] == DEF and r[1]:
            # with no bit set
            z = {at.args[0].args[0]: mkT('mempty', (FALSE,)) for at, i in r[1].items() if at.op == 'ab' and i == 0 and at.args[0].op == 'bs:none'}
            if z and self.cmp(mapterms(spec, z), mapterms(impl, z), {})[0] != DEF:
                r = (UND,) + r[1:]
        if r[0] == UND and PEEL and isinstance(spec, T) and isinstance(impl, T) and not self.recops(impl) - self.recops(spec):
            q = None
            for g in (lambda e: self.shaped(spec, impl, e), lambda e: self.peeled(spec, impl, {}, (1, 2, 3), e)):
                t = time.time()
                if q is None and PEELLEFT[0] > 0:
                    TT.DEADLINE[0] = t + min(PEEL, PEELLEFT[0])
                    try:
                        q = g(TT.DEADLINE[0])
                    except TT.Blowup:
                        pass
                    finally:
                        TT.DEADLINE[0] = None
                PEELLEFT[0] -= time.time() - t
            if q is not None:
                return q
        return r

    def shaped(self, a, b, end):
        """the results on small diagrams"""
        for s in peel.shapes(a, b):
            if time.time() > end:
                return None
            save = TT.BUDGET[0]
            try:
                TT.BUDGET[0] = min(save, TT.LIMIT - 400000)
                x, y = peel.shaped(s, a, b)
                r = Diff(budget=4000, rw=self.rw).cmp(x, y, s.path)
                if r[0] == UND:
                    r = self.peeled(x, y, s.path, (1, 2), end) or r
                if r[0] == DEF:
                    return r
            except (peel.Large, TT.Blowup, RecursionError):
                pass
            finally:
                TT.BUDGET[0] = save
        return None

    def peeled(self, a, b, path, ks, end):
        """the results for small numbers of rounds, written out; only a difference is conclusive"""
        qa = peel.quantities(a)
        qs = [q for q in peel.quantities(b) if q in qa] or qa[:1]
        for q in qs[:3]:
            deeper = []
            for k in ks:
                if time.time() > end:
                    return None
                save = TT.BUDGET[0]
                try:
                    TT.BUDGET[0] = min(save, TT.LIMIT - 400000)
                    x, y = peel.fixed(q, k, a, b)
                    p2 = self.assume(path, compare('==', q, c(k)))
                    r = Diff(budget=4000, rw=self.rw).cmp(x, y, p2)
                    if r[0] == DEF:
                        return r
                    if r[0] == UND and k < 3:
                        deeper.append((x, y, p2))
                except (peel.Large, TT.Blowup, RecursionError):
                    break
                finally:
                    TT.BUDGET[0] = save
            if len(path) < 2:
                for x, y, p2 in deeper:
                    r = self.peeled(x, y, p2, (1, 2), end)
                    if r is not None:
                        return r
        return None

    def recops(self, t):
        return {z.op for z in subterms(t) if z.op.startswith(('mu:', 'muout'))}

    def feasible(self, at, i, path):
        if at in path:
            return path[at] == i
        if at.op == 'ac':
            q, k, fl = at.args
            v = ground(q)
            if v is not None:
                d = v - float(k.args[0])
                return i == (1 if abs(d) < 1e-9 else 0 if d < 0 else 2)
            if q.op == 'log' and q.args[0].op == 'nconst' and i == 2 and k.args[0] >= 0:
                return False        # a product of normalised circuits weighs at most 1
            lo, hi = None, None     # open/closed ends over constants
            cons = [(a.args[1].args[0], b) for a, b in path.items() if a.op == 'ac' and a.args[0] is q]
            k = k.args[0]
            for k2, b2 in cons:
                # b2: q<k2, =, >
                if b2 == 1:
                    if (k2 < k) - (k2 > k) != {0: 1, 1: 0, 2: -1}[i]:
                        return False
                if i == 1:
                    if {0: k < k2, 1: k == k2, 2: k > k2}[b2] is False:
                        return False
                if b2 == 0 and i == 2 and (k >= k2 or (fl == 'i' and k + 1 >= k2)):
                    return False
                if b2 == 2 and i == 0 and (k <= k2 or (fl == 'i' and k2 + 1 >= k)):
                    return False
            if i == 0 and k <= 0 and nonneg(q):
                return False
            if i == 1 and k < 0 and nonneg(q):
                return False
            if i == 1 and k == 0 and q.op in NONZERO:
                return False
        if at.op == 'ab':
            t = at.args[0]
            # sdd constants are pairwise exclusive
            grp = ('sdd:istrue', 'sdd:isfalse', 'sdd:islit', 'sdd:isdec')
            if t.op in grp and i == 0:
                for a, b in path.items():
                    if a.op == 'ab' and b == 0 and a.args[0].op in grp and a.args[0] is not t and a.args[0].args[0] is t.args[0]:
                        return False
        return True

    def assume(self, path, v):
        """path extended by a condition when it is a single outcome of one choice"""
        if isinstance(v, T) and v.op == 'ite':
            o = [i for i, z in enumerate(v.args[1:]) if z is not FALSE]
            if len(o) == 1 and v.args[1 + o[0]] is TRUE and v.args[0] not in path:
                return {**path, v.args[0]: o[0]}
        return path

    def inloop(self, path, i, N):
        return self.assume(path, compare('<', i, N)) if isinstance(N, T) and N.op != 'ite' and N is not c('open') else path

    def worst(self, rs):
        best = (SAME, None, None, None)
        for r in rs:
            if r[0] > best[0]:
                best = r
            if best[0] == DEF:
                break
        return best

    def cmp(self, a, b, path):
        if a is b:
            return (SAME, None, None, None)
        if a is BOT or a.op == 'undef':
            return (SAME, None, None, None)     # the reference leaves it open
        # SAME found without cutting any branch as infeasible holds under every path; anything else only under this path
        k = (a.id, b.id)
        r = self.memo.get(k)
        if r is not None:
            return r
        kp = (k, frozenset((t.id, i) for t, i in path.items()))
        r = self.memop.get(kp)
        if r is not None:
            self.pruned += 1
            return r
        self.budget -= 1
        if self.budget < 0:
            return (UND, path, a, b)
        n = self.pruned
        r = self._cmp(a, b, path)
        if r[0] == UND and self.absts > 0:
            r = self.shared(a, b, path, r)
        if r[0] == SAME and self.pruned == n:
            self.memo[k] = r
        else:
            self.memop[kp] = r
        return r

    def _cmp(self, a, b, path):
        if a.op == 'nprod' and (b.op == 'nprod' or b is peel.END):
            return (DEF, path, a, b)        # other factors, or none
        if a.op == 'ite' or b.op == 'ite':
            at = a.args[0] if a.op == 'ite' else None
            if b.op == 'ite' and (at is None or b.args[0].id < at.id):
                at = b.args[0]
            out = []
            ok = self.atomok(at)
            for i in range(dom(at)):
                if not self.feasible(at, i, path):
                    self.pruned += 1
                    continue
                p2 = dict(path)
                p2[at] = i
                x, y = cof(a, at, i), cof(b, at, i)
                if x is y:
                    continue
                if at.op == 'ac' and i == 1 and at.args[0].op not in ('poly',) and isnum(at.args[1]):
                    x, y = replace(x, at.args[0], at.args[1]), replace(y, at.args[0], at.args[1])
                    if at.args[0].op == 'log' and at.args[1] is ZERO:
                        x, y = replace(x, at.args[0].args[0], ONE), replace(y, at.args[0].args[0], ONE)
                elif at.op == 'ac' and i == 1 and at.args[0].op == 'poly' and isnum(at.args[1]):
                    x, y = self.solve(at.args[0], at.args[1], x, y)
                if at.op == 'ab' and i == 0 and at.args[0].op == 'eq':
                    u, v = at.args[0].args
                    if v.op == 'c':
                        u, v = v, u
                    if u.op != 'c' and (has_sub(v, u) or (v.id < u.id and not has_sub(u, v))):
                        u, v = v, u
                    if u is NULL and v.op == 'sym' and (str(v.args[0]).endswith('.i') or str(v.args[0])[:1] in 'br'):
                        u = ZERO
                    if v.op != 'c' and not has_sub(u, v) and (has_sub(x, v) or has_sub(y, v)):
                        x, y = replace(x, v, u), replace(y, v, u)
                if at.op == 'ab' and i == 1 and at.args[0].op == 'has' and at.args[0].args[0].op in TT.MAPDEF:
                    e = mkT('elem', at.args[0].args)
                    x, y = replace(x, e, TT.MAPDEF[at.args[0].args[0].op]), replace(y, e, TT.MAPDEF[at.args[0].args[0].op])
                if at.op == 'ab' and i == 1 and at.args[0].op == 'has' and self.inits:
                    # no entry in a map that started empty: reading gives the default
                    m, k = at.args[0].args
                    i0 = self.inits.get(m)
                    if i0 is not None and i0.op == 'mempty':
                        e = mkT('elem', (m, k))
                        x, y = replace(x, e, i0.args[0]), replace(y, e, i0.args[0])
                        self.pruned += 1
                r = self.cmp(x, y, p2)
                if r[0] == DEF and not ok and not self.decides(at, a, b, path):
                    r = (UND,) + r[1:]
                out.append(r)
                if r[0] == DEF:
                    break
            w = self.worst(out)
            if w[0] == UND and self.pairs > 0:
                w = self.pairing(a, b, path, w)
            return w
        return self.leaf(a, b, path)

    def solve(self, q, k, x, y):
        """a linear equation between quantities used to write one of them by the others"""
        p = poly_of(q)
        for m, cf in p.items():
            if len(m) == 1 and m[0][1] == 1 and abs(cf) == 1:
                v = m[0][0]
                rest = {n: z for n, z in p.items() if n != m}
                if v.op == 'c' or v.op == 'inf' or any(has_sub(t, v) for n in rest for t, e in n) or not (has_sub(x, v) or has_sub(y, v)):
                    continue
                if any(t.op == 'inf' for n in rest for t, e in n) and not (len(rest) == 1 and v.op.startswith('fld:')):
                    continue
                u = mul(from_poly({(): 1 / cf}), sub(k, from_poly(rest)))
                return replace(x, v, u), replace(y, v, u)
        return x, y

    def equated(self, x, y, path):
        for at, i in path.items():
            if at.op == 'ac' and i == 1 and at.args[0].op == 'poly' and isnum(at.args[1]):
                x, y = self.solve(at.args[0], at.args[1], x, y)
        self.pruned += x is y
        return x is y

    def shared(self, a, b, path, r):
        """loop results that both sides compute alike, taken as unknowns"""
        if not self.clean(a) or not self.clean(b):
            return r
        inp = {x.id for at in path for x in subterms(at) if x.op in SHARE}
        free = a.free | b.free
        cand = []
        sb = {x.id for x in subterms(b)}
        seen = set()

        def go(t):
            if t.id in seen:
                return
            seen.add(t.id)
            if t.op in SHARE and t is not a and t.id in sb and t is not b:
                if t.id not in inp and not t.taint and t.free <= free and not any(x.op.startswith(('mu', 'self')) for x in subterms(t)):
                    cand.append(t)
                return
            col = []
            TT._collect(t.args, col)
            for z in col:
                go(z)
        go(a)
        if not cand or len(cand) > 3:
            return r
        self.absts -= 1
        x, y = a, b
        for i, t in enumerate(cand):
            z = sym('sh!%d' % t.id)
            x, y = replace(x, t, z), replace(y, t, z)
        q = self.cmp(x, y, path)
        return q if q[0] == DEF else r

    def clean(self, t):
        """understood apart from being a loop summary"""
        return not t.taint and not any(x.op == 'top' or x.op.startswith('ext:') for x in subterms(t))

    def decides(self, at, a, b, path):
        """is a choice that is not fully understood made on both sides, or by the reference with the code
        depending on nothing that could stand for it"""
        sa = any(z is at for z in atoms(a))
        sb = any(z is at for z in atoms(b))
        if sa and sb:
            return True
        if sa and all(self.clean(x) for x in at.args if isinstance(x, T)):
            own = set(atoms(a))
            ops = {x.op for v in at.args if isinstance(v, T) for x in subterms(v)}
            return all(z in own or self.atomok(z) and not ops & {x.op for x in subterms(z.args[0]) if x.op in WITHIN} for z in atoms(b)) and \
                not any(z.op == 'ab' and z.args[0].op in WITHIN & ops and z.args[0].args[0].op != 'ifs' for z in path)
        return False

    def pairing(self, a, b, path, w):
        """a condition of the reference against its counterpart in the code"""
        A, B = list(atoms(a)), list(atoms(b))
        ua = [z for z in dict.fromkeys(A) if z not in B and not self.atomok(z)]
        ub = [z for z in dict.fromkeys(B) if z not in A and not self.atomok(z)]
        if not ua or not ub or len(ua) > 4 or len(ub) > 4:
            return w
        for y in ub:
            for x in ua:
                if x.op != y.op or self.pairs <= 0:
                    continue
                if x.op == 'ac' and x.args[1:] != y.args[1:]:
                    continue
                self.pairs -= 1
                r = self.cmp(x.args[0], y.args[0], path)
                if r[0] == UND:
                    continue
                b2 = self.reatom(b, y, x)
                q = self.cmp(a, b2, path)
                if r[0] == SAME:
                    return q
                if q[0] == SAME:
                    return r
        return w

    def reatom(self, v, y, x):
        memo = {}

        def go(t):
            if t.op != 'ite':
                return t
            r = memo.get(t.id)
            if r is None:
                r = memo[t.id] = mkord(x if t.args[0] is y else t.args[0], [go(z) for z in t.args[1:]])
            return r
        return go(v)

    # ---- loop summaries as recurrences
    def asrec(self, t):
        """(N, direction or None, index, state, init, step) of a summary with one state"""
        op = t.op
        S = sym('st!')
        if op == 'recur' and len(t.args[3]) == 1:
            return t.args[0], t.args[1], t.args[2][0], t.args[2][1], t.args[3][0], t.args[4][0]
        if op == 'sum':
            return t.args[0], None, t.args[1], 'st!', ZERO, add(S, t.args[2])
        if op == 'exists':
            return t.args[0], None, t.args[1], 'st!', FALSE, bor(S, t.args[2])
        if op == 'lst':
            b0, n, d, nm, key, val = t.args
            step = self.storeval(S, key, val)
            return n, (None if d == 'any' else d), nm, 'st!', b0, step
        if op == 'gen':
            n, d, nm, b = t.args
            return n, d, nm, 'st!', mkT('vlit', ()), cat(S, b)
        if op == 'tab':
            n, nm, b = t.args
            return n, 'asc', nm, 'st!', mkT('vlit', ()), cat(S, mkT('vlit', (b,)))
        if op == 'cat' and t.args[-1].op in ('gen', 'tab'):
            n, d, nm, i0, st = self.asrec(t.args[-1])[:2] + self.asrec(t.args[-1])[2:3] + (cat(*t.args[:-1]), None)
            bd = t.args[-1].args[-1]
            return n, d, nm, 'st!', i0, cat(S, mkT('vlit', (bd,)) if t.args[-1].op == 'tab' else bd)
        if op.startswith('fold:') and op[5:].startswith('ac:'):
            n, nm, b, i0 = t.args
            return None
        return None

    def storeval(self, S, key, val):
        """one step of a pass that fills a map; recursive values read the map"""
        if val.op == 'mu' and val.args[3] is (key if key.op == 'elem' else key.args[0] if key.args else None):
            val = self.unmu(val, S, (lambda y: y) if key.op == 'elem' else (lambda y: mkT(key.op, (y,))))
        if 'old!' in val.free:
            val = subst(val, {sym('old!'): sel(S, key)})
        return store(S, key, val)

    def unmu(self, mu, S, key):
        v, f, body, x = mu.args
        memo = {}

        def go(t):
            if t is sym(v):
                return x
            if not (t.free & {v, f}):
                return t
            r = memo.get(t.id)
            if r is None:
                if t.op == 'self' and t.args[0] is sym(f):
                    r = mkT('elem', (S, key(go(t.args[1]))))
                else:
                    r = TT.rebuild(t, go)
                memo[t.id] = r
            return r
        return go(body)

    def unfold(self, mu):
        v, f, body, x = mu.args
        memo = {}

        def go(t):
            if t is sym(v):
                return x
            if not (t.free & {v, f}):
                return t
            r = memo.get(t.id)
            if r is None:
                if t.op == 'self' and t.args[0] is sym(f):
                    r = mkT('mu', (v, f, body, go(t.args[1])), bound=(v, f))
                else:
                    r = TT.rebuild(t, go)
                memo[t.id] = r
            return r
        return go(body)

    def asloops(self, a, b, path):
        """different summaries compared step by step; only a difference is conclusive"""
        ra, rb = self.asrec(a), self.asrec(b)
        und = (UND, path, a, b)
        if ra is None or rb is None or not isinstance(ra[0], T) or not isinstance(rb[0], T):
            return und
        if ra[1] and rb[1] and ra[1] != rb[1]:
            return und
        r0 = self.worst([self.cmp(ra[0], rb[0], path), self.cmp(ra[4], rb[4], path)])
        if r0[0] == UND:
            return und
        self.depth += 1
        try:
            i, s = sym('al!%d.i' % self.depth), sym('al!%d.0' % self.depth)
            x = subst(ra[5], {sym(ra[2]): i, sym(ra[3]): s})
            y = subst(rb[5], {sym(rb[2]): i, sym(rb[3]): s})
            if not self.samerec(x, y):
                return und
            r = self.cmp(x, y, self.inloop(path, i, ra[0]))
        finally:
            self.depth -= 1
        if r[0] == DEF:
            return self.reach(r, [(x, y)], und)
        if r[0] == SAME and r0[0] == DEF:
            return r0
        return und

    def unreset(self, a, b, path):
        """a pass that is to clear a map but leaves entries as they are under some condition"""
        p = b.args[5]
        st, me = b.args[4][p], sym(b.args[2][1 + p])
        if b.args[3][p] is a or not self.clean(st) or not self.clean(b.args[3][p]):
            return None
        wr = [l for l in leaves(st) if l.op == 'store' and l.args[0] is me]
        if not wr or any(l.args[1] is not wr[0].args[1] for l in wr):
            return None
        key = wr[0].args[1]
        old = mkT('elem', (me, key))
        # with one key per round the content met is that before the pass
        start = sel(b.args[3][p], key) if perround(key, b.args[2][0]) else old
        if not self.clean(start) or any(n in start.free for n in b.args[2][1:]) and start is not old:
            start = old
        if start is a.args[0] or any(v is not a.args[0] and v is not old and v is not start for l in wr for v in leaves(l.args[2])):
            return None

        def go(t, p2):
            if t.op == 'store':
                t = t.args[2]
            if t.op != 'ite':
                return p2 if t is me or t is old or t is start else None
            at = t.args[0]
            if any(n in at.free for n in b.args[2][1:]) and at.op == 'ab' and not any(z.op in ('elem', 'has') for z in subterms(at.args[0])):
                return None         # whether this state arises is not known
            for i in range(dom(at)):
                if not self.feasible(at, i, p2):
                    continue
                if at.op in ('ac', 'ab') and any(z.op == 'elem' and z.args[0] is me for z in subterms(at.args[0])) and (at.op == 'ab' or i == 1):
                    continue
                r = go(t.args[1 + i], dict(p2, **{}) | {at: i})
                if r is not None:
                    return r
            return None
        r = go(st, dict(path))
        if r is None or not r or key is None:
            return None
        return (DEF, r, a, sel(b.args[3][p], key))

    def muelem(self, a, b, path):
        """a recursive definition against a pass over the serialisation that keeps the values in a map"""
        m, e = (a, b) if a.op == 'mu' else (b, a)
        if e.op != 'elem' or e.args[0].op != 'recur':
            return None
        R = e.args[0]
        N, d, names, inits, steps, k = R.args
        if d != 'desc' or not isinstance(N, T) or N.op != 'size' or N.args[0].op != 'ser' or len(inits) != 1:
            return None
        node = mkT('elem', (N.args[0], sym(names[0])))
        kop = e.args[1].op if e.args[1].op == 'fld:PsddNode::node_index_' else None
        key = (lambda y: mkT(kop, (y,))) if kop else (lambda y: y)
        x = e.args[1].args[0] if kop else e.args[1]
        if x is not m.args[3]:
            return None
        self.depth += 1
        try:
            i, s = sym('al!%d.i' % self.depth), sym('al!%d.0' % self.depth)
            mp = {sym(names[0]): i, sym(names[1]): s}
            node2 = subst(node, mp)
            mm = mkT('mu', m.args[:3] + (node2,), bound=m.args[:2])
            u = self.unmu(mm, s, key)
            v = sel(subst(steps[0], mp), key(node2))
            p2 = self.inloop(path, i, N)
            u, v = (u, v) if m is a else (v, u)
            if not self.samerec(u, v):
                return None
            r = self.cmp(u, v, p2)
        finally:
            self.depth -= 1
        return self.reach(r, [(u, v)], None) if r[0] == DEF else None

    def pointwise(self, a, b, path):
        """arrays at one generic position"""
        self.depth += 1
        try:
            j = sym('al!%d.i' % self.depth)

            def at(t):
                if t.op == 'vfill':
                    return t.args[0], t.args[1]
                if t.op == 'tab':
                    return t.args[0], inst(t, j)
                b0, n, d, nm, key, val = t.args
                off = sub(key, sym(nm))
                if nm in off.free or off.op == 'ite':
                    return None, None
                at_ = sub(j, off)
                v = subst(val, {sym(nm): at_})
                if 'old!' in v.free:
                    v = subst(v, {sym('old!'): sel(b0, j)})
                w = band(compare('<', at_, n), bnot(compare('<', at_, ZERO)))
                return add(n, off), ite(w, v, sel(b0, j))
            na, x = at(a)
            nb, y = at(b)
            if na is None or nb is None:
                return None
            n = na if a.op != 'lst' else nb
            y = ite(compare('<', j, n), y, x)
            return self.cmp(x, y, path)
        finally:
            self.depth -= 1

    def induct(self, a, b, path):
        """a closed form against a loop with one state: up to the round where they part the state is the closed form"""
        for x, y in ((a, b), (b, a)):
            f, z = x, None
            if DBG and 'pre' in (a.op, b.op): print('TRY', x.op, y.op, [q.op if isinstance(q, T) else q for q in x.args], x.taint, y.free)
            if x.op == 'pre' and x.args[0].op == 'recur' and x.args[1].op == 'sym' and x.args[2] == x.args[0].args[1]:
                f, z = x.args[0], x.args[1]
            if f.op != 'recur' or len(f.args[3]) != 1 or f.args[5] != 0 or y.op not in ('poly', 'c', 'sym', 'size') or f.taint:
                continue
            n, d, nm, ini, st, k = f.args
            asc = d == 'asc'
            if any(str(q).startswith(('b', 'nn:m')) for q in y.free) or y.op == 'sym' and y is not z:
                continue
            self.depth += 1
            try:
                j = sym('al!%d.i' % self.depth)
                if z is not None:
                    now = subst(y, {z: j})
                    nxt = subst(y, {z: add(j, ONE) if asc else sub(j, ONE)})
                    first = subst(y, {z: ZERO if asc else sub(n, ONE)})
                else:
                    if not TT.linear(y, n):
                        continue
                    done = j if asc else sub(sub(n, ONE), j)
                    now, nxt, first = [subst(y, {n: q}) for q in (done, add(done, ONE), ZERO)]
                if DBG: print('INI', show(ini[0]), show(first))
                if self.cmp(ini[0], first, path)[0] != SAME:
                    return None
                step = subst(st[0], {sym(nm[0]): j, sym(nm[1]): now})
                if DBG: print('IND', show(step), show(nxt), showpath(self.cmp(step, nxt, {})[1] or {}))
                r = self.cmp(step, nxt, {})
                if r[0] == DEF and not self.stateful_path(r[1]):
                    p = dict(path)
                    p.update(r[1])
                    return (DEF, p, a, b)
            finally:
                self.depth -= 1
        return None

    def stateful_path(self, path):
        return any(self.stateful(at) for at in path or {})

    def samerec(self, x, y):
        """the two steps lean on the same recursive results"""
        return self.recops(x) == self.recops(y)

    def stateful(self, at):
        return any(str(n).startswith('al!') and not str(n).endswith('.i') for n in at.free)

    def reach(self, r, pairs, und):
        """a difference found under a choice on an arbitrary loop state counts only when the reference itself
        tells that outcome apart from the others (so that it does occur), or the choice is the absence of an
        entry under a key that several rounds share"""
        path = r[1] or {}
        if any(self.asksitem(y) for p in pairs for y in p):
            return und
        for at, i in path.items():
            if not self.stateful(at):
                continue
            if at.op == 'ab' and at.args[0].op == 'has' and at.args[0].args[0].op == 'sym' and not self.injkey(at.args[0].args[1]):
                continue
            if at.op == 'ab' and at.args[0].op == 'streamok':
                continue            # files of any length
            if self.underway(at, i) or not self.stateful(self.items(at)):
                continue
            if at.op == 'ab' and at.args[0].op == 'has':
                m = at.args[0].args[0]
                while m.op in ('pre', 'recur', 'store'):
                    m = m.args[3][m.args[5]] if m.op == 'recur' else m.args[0]
                if m.op == 'sym' and not self.injkey(at.args[0].args[1]) and self.items(at.args[0].args[1]) is not at.args[0].args[1]:
                    continue        # a child of the round's node that was, or was not, met before
            rest = {a: o for a, o in path.items() if a is not at}
            ok, seen = True, False
            for x, y in pairs:
                x, y = self.under(x, rest), self.under(y, rest)
                others = [j for j in range(dom(at)) if j != i and self.feasible(at, j, rest)]
                xi, yi = cof(x, at, i), cof(y, at, i)
                if all(cof(x, at, j) is xi for j in others) and all(cof(y, at, j) is yi for j in others):
                    continue        # plays no part in this state
                seen = True
                if any(cof(x, at, j) is xi for j in others) and not (at.op == 'ac' and i == 1 and self.bound1(x, y, at)):
                    ok = False
            if seen and not ok:
                return und
        return r

    def asksitem(self, t):
        """asks or says again whether the node a round takes from its list is among those met, which it always is"""
        for x in subterms(t):
            if x.op in ('has', 'store', 'elem') and x.args[0].op == 'sym' and str(x.args[0].args[0]).startswith('al!'):
                k = x.args[1]
                if k.op == 'fld:PsddNode::node_index_':
                    k = k.args[0]
                if k.op == 'elem' and k.args[0] is not x.args[0] and k.args[0] in self.inits and self.items(k) is not k and k.args[0].op == 'sym':
                    return True
        return False

    def items(self, t):
        """with the node a round takes from its list of nodes still to visit as a node of its own: the list starts with nodes that are given"""
        m = {}
        for x in subterms(t):
            if x.op == 'elem' and x.args[0].op == 'sym' and str(x.args[0].args[0]).startswith('al!') and (
                    x.args[1] is ZERO or x.args[1].op == 'sym' and str(x.args[1].args[0]).endswith('.i')):
                i0 = self.inits.get(x.args[0])
                if i0 is not None and i0.op in ('gen', 'vlit', 'sym') and any(
                        y.op == 'sym' and re.match(r'(nn:|\*)?p\d+$', str(y.args[0])) for y in subterms(i0)):
                    m[x] = sym('nn:item')
        if not m:
            return t
        return mapterms(t, m)

    def underway(self, at, i):
        """the round is one of a list that is still being worked through"""
        if at.op != 'ac' or i == 1 or at.args[1] is not ZERO:
            return False
        if at.args[0].op != 'poly':
            return False
        p = TT.poly_of(at.args[0])
        if len(p) != 2 or any(len(m) != 1 or m[0][1] != 1 for m in p):
            return False
        q = {m[0][0]: k for m, k in p.items()}
        idx = [f for f in q if f.op == 'sym' and str(f.args[0]).endswith('.i')]
        siz = [f for f in q if f.op == 'size' and f.args[0].op == 'sym' and str(f.args[0].args[0]).startswith('al!')]
        return len(idx) == 1 and len(siz) == 1 and q[idx[0]] == -q[siz[0]] and (q[idx[0]] < 0) == (i == 2)

    def bound1(self, x, y, at):
        """a limit that one side takes as included and the other as excluded"""
        x, y = [cof(x, at, j) for j in range(3)], [cof(y, at, j) for j in range(3)]
        return x[0] is not x[2] and (x[1] is x[2] and y[1] is y[0] or x[1] is x[0] and y[1] is y[2])

    def under(self, v, path):
        memo = {}

        def go(t):
            if t.op != 'ite':
                return t
            r = memo.get(t.id)
            if r is None:
                at = t.args[0]
                if at in path:
                    r = go(t.args[1 + path[at]])
                else:
                    r = mkord(at, [go(z) for z in t.args[1:]])
                memo[t.id] = r
            return r
        return go(v)

    def injkey(self, k):
        """each round uses its own key"""
        if k.op == 'fld:PsddNode::node_index_':
            k = k.args[0]
        if k.op == 'elem' and (k.args[0].op == 'ser' or k.args[0] in self.inits):
            k = k.args[1]
            if k is ZERO:
                return True
        return k.op == 'sym' and str(k.args[0]).endswith('.i')

    def leaf(self, a, b, path):
        if b is BOT:
            return (DEF if self.ground(a) else UND, path, a, b)
        if a.op == 'top' or b.op == 'top':
            return (UND, path, a, b)
        numeric = a.op == 'poly' or b.op == 'poly' or (isnum(a) and not isc(b)) or (isnum(b) and not isc(a))
        if numeric:
            r = self.constant(a, b, path)
            r = r if r is not None else self.poly(a, b, path)
            if r[0] == UND:
                r = self.induct(a, b, path) or r
            return r
        if a.op != b.op and 'rec' in (a.op, b.op):
            r, o = (a, b) if a.op == 'rec' else (b, a)
            if o.op != 'c' and not o.op.startswith('ext:') and o.op not in ABSTR and all(f.startswith(r.args[0] + '::') for f, _ in r.args[1]):
                return self.worst([self.cmp(*((v, self.rw(getf(o, f))) if r is a else (self.rw(getf(o, f)), v)), path) for f, v in r.args[1]])
        if a.op != b.op and self.cut(a, b):
            return (DEF, path, a, b)
        if a.op != b.op and (a.op.endswith('!') or b.op.endswith('!')):
            # a history of calls against the same history without the last ones
            for x, y in ((a, b), (b, a)):
                while x.op.startswith('fn:') and x.op.endswith('!') and x is not y:
                    x = x.args[0]
                if x is y:
                    return (DEF, path, a, b)
        if 'recur' in (a.op, b.op) and (a.op != b.op or a.args[3][a.args[5]] is b):
            r, o = (a, b) if a.op == 'recur' else (b, a)
            k = r.args[5]
            if r.args[3][k] is o and self.clean(r) and (r is a and o.op not in ABSTR or all(l.op.endswith('!') or l is sym(r.args[2][1 + k]) for l in leaves(r.args[4][k]))):
                return (DEF, path, a, b)
        if a.op == 'pre' and b.op == 'pre' and a.args[1:] == b.args[1:] and a.args[2] == 'asc' and a.args[0].op == b.args[0].op and a.args[0].op in ('recur', 'tab', 'gen', 'sum', 'exists', 'lst'):
            # the state before a round does not depend on the number of rounds to come
            x, y = a.args[0], b.args[0]
            i = 1 if x.op == 'lst' else 0
            if x.args[i] is not y.args[i]:
                n = y.args[i]
                return self.cmp(x, TT.rebuild(y, lambda t: x.args[i] if t is n else t), path)
        if a.op != b.op:
            if a.op == 'store' or b.op == 'store':
                return self.stores(a, b, path)
            if 'cat' in (a.op, b.op) or 'gen' in (a.op, b.op):
                return self.seq(a, b, path)
            if a.op.startswith('ext:') or b.op.startswith('ext:'):
                return (UND, path, a, b)
            if {a.op, b.op} == {'uniq', 'truenode'}:
                # the true node of an inner vtree node has one element: its children's true nodes
                u, t = (a, b) if a.op == 'uniq' else (b, a)
                v = t.args[1]
                if u.args[0] == 'D' and len(u.args) == 6 and u.args[1] is v and v.op == 'vt:parent':
                    x = mkT('uniq', ('D', v, t.args[2]) + tuple(mkT('vlit', (y,)) for y in (
                        mkT('truenode', (t.args[0], mkT('vt:left', (v,)), t.args[2])), mkT('truenode', (t.args[0], mkT('vt:right', (v,)), t.args[2])), c(1))))
                    return self.cmp(x, b, path) if t is a else self.cmp(a, x, path)
            if a.op in ABSTR and b.op in ABSTR:
                u, v = nodeat(a), nodeat(b)
                if u is not None and v is not None and (strictly(u, v) or strictly(v, u)):
                    return (DEF, path, a, b)    # nodes of different vtree nodes
                return (UND, path, a, b)
            if a.op.startswith('fn:') or b.op.startswith('fn:'):
                # a function taken as it is may equal any expression over its arguments
                for x, y in ((a, b), (b, a)):
                    # but a product is none of its factors
                    if x.op == 'fn:Multiply' and any(z is y for z in subterms(mkT('pair', x.args[1:3]))) and not x.taint:
                        return (DEF, path, a, b)
                return (DEF if 'c' in (a.op, b.op) else UND, path, a, b)
            sa, sb = a.op in SUMMARY or a.op.startswith('fold:'), b.op in SUMMARY or b.op.startswith('fold:')
            if {a.op, b.op} <= {'vfill', 'tab', 'lst'}:
                r = self.pointwise(a, b, path)
                if r is not None:
                    return r
            if 'mu' in (a.op, b.op) and self.unfolds < 2 and not (a.op == 'mu' and b.op == 'mu'):
                r = self.muelem(a, b, path)
                if r is not None:
                    return r
                if not (sa and sb):
                    self.unfolds += 1
                    try:
                        r = self.cmp(self.unfold(a) if a.op == 'mu' else a, self.unfold(b) if b.op == 'mu' else b, path)
                    finally:
                        self.unfolds -= 1
                    if r[0] != UND:
                        return r
            if sa and sb:
                return self.asloops(a, b, path)
            if a.op == 'mempty' and b.op == 'recur':
                r = self.unreset(a, b, path)
                if r is not None:
                    return r
            r = self.constant(a, b, path)
            if r is not None:
                return r
            if {'lst', 'arr0'} == {a.op, b.op} or {'lst', 'mempty'} == {a.op, b.op}:
                l, o = (a, b) if a.op == 'lst' else (b, a)
                if l.args[0] is o:
                    return (DEF, path, a, b)
            if sa or sb:
                x = b if sa else a
                return (DEF if x.op in ('c',) or self.ground(x) and x.op in ('elem', 'sym', 'ln') and not (a if sa else b).taint else UND, path, a, b)
            if simple1(a) and simple1(b) and not a.taint and not b.taint:
                return (DEF, path, a, b)
            return (UND, path, a, b)
        op = a.op
        if op == 'c':
            if a.args[0] is None or b.args[0] is None:
                pass
            return (DEF, path, a, b)
        if op == 'sym':
            fs = sorted({x.op for at in path for x in subterms(at) if x.op == 'fld:PsddParameter::parameter_' and x.args[0] in (a, b)})
            if fs and all(self.equated(mkT(f, (a,)), mkT(f, (b,)), path) for f in fs):
                return (SAME, None, None, None)     # the hash is a function of the value
            return (DEF, path, a, b)
        if op == 'recur':
            return self.recur(a, b, path)
        if op in ('store',):
            return self.stores(a, b, path)
        if op in ('cat', 'gen') and op == 'cat':
            return self.seq(a, b, path)
        if op.startswith('ac:'):
            return self.acset(a, b, path)
        if op.startswith('ext:'):
            return (UND, path, a, b)
        if op == 'rec' and a.args[0] == b.args[0]:
            fa, fb = dict(a.args[1]), dict(b.args[1])
            if set(fa) == set(fb):
                return self.worst([self.cmp(fa[f], fb[f], path) for f in fa])
            return (UND, path, a, b)
        if op == 'eq':
            r1 = self.worst([self.cmp(a.args[0], b.args[0], path), self.cmp(a.args[1], b.args[1], path)])
            if r1[0] == SAME:
                return r1
            r2 = self.worst([self.cmp(a.args[0], b.args[1], path), self.cmp(a.args[1], b.args[0], path)])
            return min(r1, r2, key=lambda r: r[0])
        fa, fb = [], []
        if len(a.args) != len(b.args):
            if op == 'vlit':
                return (DEF, path, a, b)
            return (UND, path, a, b)
        rs = []
        for x, y in zip(a.args, b.args):
            if isinstance(x, T) and isinstance(y, T):
                rs.append(self.cmp(x, y, path))
            elif isinstance(x, tuple) and isinstance(y, tuple):
                cx, cy = [], []
                TT._collect(x, cx)
                TT._collect(y, cy)
                if len(cx) != len(cy):
                    rs.append((UND, path, a, b))
                else:
                    rs += [self.cmp(p, q, path) for p, q in zip(cx, cy)]
            elif x != y:
                # binder direction / operator tag / bound names
                if op in SUMMARY or op.startswith('fold:'):
                    if isinstance(x, str) and x.startswith(('b', 'nn:m', 'f')):
                        rs.append((UND, path, a, b))
                    else:
                        rs.append((UND, path, a, b))
                else:
                    rs.append((DEF if self.ground(a) and self.ground(b) else UND, path, a, b))
        r = self.worst(rs)
        if r[0] == DEF and op not in CONSTR and sum(q[0] != SAME for q in rs) > 1 and not (self.ground(a) and self.ground(b)):
            r = (UND, path, a, b)
        # names clash of binders of different height: bodies were compared under different bound names
        if op in SUMMARY or op.startswith('fold:'):
            na = [x for x in a.args if isinstance(x, str)]
            nb = [x for x in b.args if isinstance(x, str)]
            if na != nb:
                r = self.alpha(a, b, path)
        if r[0] == UND and op in ('tab', 'gen') and a.args[0] is b.args[0]:
            r1 = self.round0(a, b, path)
            if r1[0] == DEF:
                return r1
        return r

    def round0(self, a, b, path):
        """sequences with one element per round: their first elements, made from the values before the loop"""
        if a.op == 'gen' and a.args[1] != b.args[1]:
            return (UND, path, a, b)
        n = a.args[0]
        if n.op == 'ite' or isc(n) and cval(n) == 0:
            return (UND, path, a, b)
        memo = {}

        def go(t):
            r = memo.get(t.id)
            if r is None:
                r = t
                if t.op == 'pre' and t.args[1] is ZERO and t.args[2] == 'asc':
                    z = self.start(t.args[0])
                    r = go(z) if z is not None else t
                if r is t:
                    r = TT.rebuild(t, go)
                memo[t.id] = r
            return r
        i = 2 if a.op == 'gen' else 1
        x, y = [go(subst(z.args[i + 1], {sym(z.args[i]): ZERO})) for z in (a, b)]
        if x is y or x is a.args[i + 1] and y is b.args[i + 1]:
            return (UND, path, a, b)
        return self.cmp(x, y, path)

    def start(self, t):
        """the value of a loop summary before its first round"""
        if t.op == 'recur':
            return t.args[3][t.args[5]]
        if t.op in ('gen', 'tab'):
            return mkT('vlit', ())
        if t.op == 'sum':
            return ZERO
        if t.op == 'exists':
            return FALSE
        if t.op == 'lst':
            return t.args[0]
        return None

    def alpha(self, a, b, path):
        """bodies with bound names of different height: align the names and retry"""
        self.depth += 1
        try:
            return self._alpha(a, b, path, 'al!%d.i' % self.depth)
        finally:
            self.depth -= 1

    def _alpha(self, a, b, path, al):
        op = a.op
        if op in ('sum', 'prod', 'tab', 'exists') or op.startswith('fold:'):
            r = [self.cmp(a.args[0], b.args[0], path)]
            b2 = subst(b.args[2], {sym(b.args[1]): sym(al)})
            a2 = subst(a.args[2], {sym(a.args[1]): sym(al)})
            r.append(self.cmp(a2, b2, path))
            if op.startswith('fold:'):
                r.append(self.cmp(a.args[3], b.args[3], path))
            return self.worst(r)
        if op in ('first', 'gen'):
            if a.args[1] != b.args[1]:
                return (UND, path, a, b)
            r = [self.cmp(a.args[0], b.args[0], path)]
            for x, y in zip(a.args[3:], b.args[3:]):
                r.append(self.cmp(subst(x, {sym(a.args[2]): sym(al)}), subst(y, {sym(b.args[2]): sym(al)}), path))
            return self.worst(r)
        if op == 'lst':
            if a.args[2] != b.args[2]:
                return (UND, path, a, b)
            r = [self.cmp(a.args[0], b.args[0], path), self.cmp(a.args[1], b.args[1], path)]
            for x, y in zip(a.args[4:], b.args[4:]):
                r.append(self.cmp(subst(x, {sym(a.args[3]): sym(al)}), subst(y, {sym(b.args[3]): sym(al)}), path))
            return self.worst(r)
        if op == 'mu':
            na, nb = sym('nn:' + al), sym(al + 's')
            r = [self.cmp(a.args[3], b.args[3], path)]
            r.append(self.cmp(subst(a.args[2], {sym(a.args[0]): na, sym(a.args[1]): nb}), subst(b.args[2], {sym(b.args[0]): na, sym(b.args[1]): nb}), path))
            return self.worst(r)
        return (UND, path, a, b)

    def recur(self, a, b, path):
        self.depth += 1
        try:
            return self._recur(a, b, path, 'al!%d.' % self.depth)
        finally:
            self.depth -= 1

    def _recur(self, a, b, path, al_):
        Na, da, na, ia, sa, pa = a.args
        Nb, db, nb, ib, sb, pb = b.args
        if da != db:
            return (UND, path, a, b)
        if len(ia) != len(ib):
            return self.fewer(a, b, path, al_)
        rN = self.cmp(Na, Nb, path)
        if rN[0] == UND:
            return rN
        und = (UND, path, a, b)
        m = len(ia)
        best = None
        i_ = sym(al_ + 'i')
        al = {sym(na[0]): i_}
        bl = {sym(nb[0]): i_}
        p2 = self.inloop(path, i_, Na)
        perms = itertools.permutations(range(m)) if m <= 4 else [tuple(range(m))]
        for pm in perms:
            if pm[pa] != pb:
                continue
            x = dict(al)
            y = dict(bl)
            for i in range(m):
                x[sym(na[1 + i])] = sym(al_ + str(i))
                y[sym(nb[1 + pm[i]])] = sym(al_ + str(i))
            rs = []
            st = []
            for i in range(m):
                rs.append([self.cmp(ia[i], ib[pm[i]], path)])
                S = sym(al_ + str(i))
                i0 = ia[i] if ia[i] is ib[pm[i]] else None
                if self.inits.get(S) is not i0:
                    self.memop.clear()
                    self.inits[S] = i0
            for i in range(m):
                u, v = subst(sa[i], x), subst(sb[pm[i]], y)
                st.append((u, v))
                rs[i].append(self.cmp(u, v, p2))
            score = sum(r1[0] + r2[0] for r1, r2 in rs)
            if best is None or score < best[0]:
                best = (score, rs, pm, st)
            if score == 0:
                break
        score, rs, pm, st = best
        if score == 0:
            return rN
        if rN[0] == DEF and self.otherinput(Na, Nb):
            return rN
        bad = [i for i in range(m) if rs[i][0][0] or rs[i][1][0]]
        if len(bad) > 1:
            # several states differ: conclusive only as the difference of the result itself
            if pa in bad and rs[pa][1][0] == DEF and rs[pa][0][0] == SAME and rN[0] == SAME and not any(rs[i][0][0] for i in bad) and all(rs[i][1][0] == DEF for i in bad):
                bad = [pa]
            else:
                return und
        k = bad[0]
        r1, r2 = rs[k]
        if rN[0] != SAME:
            return und
        if r1[0] == DEF and r2[0] != SAME and ia[k].op == 'mempty':
            # the rounds agree once both start from the reference's empty map
            S = sym(al_ + str(k))
            self.memop.clear()
            self.inits[S] = ia[k]
            r2 = self.cmp(st[k][0], st[k][1], p2)
            self.memop.clear()
            self.inits[S] = None
        if r1[0] == SAME:
            if r2[0] == UND or not self.samerec(*st[k]):
                return und
            r = self.reach(r2, st, und)
            if r[0] == UND and k == pa:
                r = self.round1(a, b, pm, st, path, al_) or und
            return r
        if r1[0] == DEF and r2[0] == SAME:
            return r1 if k == pa or self.carries(st[pa][0], al_, k) else und
        return und

    def round1(self, a, b, pm, st, path, al_):
        """the loop that ends after its first round"""
        N, d, _, ia, _, pa = a.args
        if d != 'asc' or isinstance(N, T) and isc(N) and N is not c('open'):
            return None
        m = {sym(al_ + 'i'): ZERO}
        for i, t in enumerate(ia):
            if t is not b.args[3][pm[i]]:
                return None
            m[sym(al_ + str(i))] = t
        x, y = [subst(t, m) for t in st[pa]]
        if x is y:
            return None
        r = self.cmp(x, y, self.inloop(path, ZERO, N))
        return r if r[0] == DEF and not any(self.stateful(at) for at in r[1] or {}) else None

    def otherinput(self, a, b):
        """the same quantity taken from another place of the input"""
        if not (self.ground(a) and self.ground(b)):
            return False
        x, y = list(subterms(a)), list(subterms(b))
        return len(x) == len(y) and sorted(t.op for t in x) == sorted(t.op for t in y) and any(t.op == 'ln' or t.op.startswith(('tok', 'rd')) for t in x)

    def carries(self, t, al_, k):
        return (al_ + str(k)) in t.free

    def fewer(self, a, b, path, al_):
        """recurrences with different numbers of states: the states both have are matched; only a difference is conclusive"""
        Na, da, na, ia, sa, pa = a.args
        Nb, db, nb, ib, sb, pb = b.args
        und = (UND, path, a, b)
        if self.cmp(Na, Nb, path)[0] != SAME or not self.clean(a) or not self.clean(b):
            return und
        ma = {pa: pb}
        if self.cmp(ia[pa], ib[pb], path)[0] != SAME:
            return und
        for i in range(len(ia)):
            if i == pa:
                continue
            l = [j for j in range(len(ib)) if j not in ma.values() and ib[j] is ia[i]]
            if len(l) == 1 and [ia[k] for k in range(len(ia))].count(ia[i]) == 1:
                ma[i] = l[0]
        if len(ma) != min(len(ia), len(ib)):
            return und
        x, y = {sym(na[0]): sym(al_ + 'i')}, {sym(nb[0]): sym(al_ + 'i')}
        for i in range(len(ia)):
            x[sym(na[1 + i])] = sym(al_ + str(i))
        for j in range(len(ib)):
            k = [i for i in ma if ma[i] == j]
            y[sym(nb[1 + j])] = sym(al_ + (str(k[0]) if k else 'x%d' % j))
        u, v = subst(sa[pa], x), subst(sb[pb], y)
        if not self.samerec(u, v):
            return und
        for i, j in ma.items():
            S = sym(al_ + str(i))
            i0 = ia[i] if ia[i] is ib[j] else None
            if self.inits.get(S) is not i0:
                self.memop.clear()
                self.inits[S] = i0
        r = self.cmp(u, v, self.inloop(path, sym(al_ + 'i'), Na))
        if r[0] == DEF:
            ex = [n for t in [r[2], r[3]] + list(r[1] or {}) if t is not None for n in t.free if str(n).startswith(al_ + 'x')]
            return und if ex else self.reach(r, [(u, v)], und)
        return und

    def constant(self, a, b, path):
        """a loop of the reference against a fixed value of the code"""
        if not (a.op in SUMMARY or a.op.startswith('fold:')) or not self.clean(a) or b.op not in ('c', 'vlit', 'mempty', 'sdd_true', 'sdd_false') or (b.op == 'vlit' and b.args):
            return None
        n = a.args[0]
        if isinstance(n, T) and any(x in set(subterms(n)) for at in path if at.op == 'ac' for x in subterms(at.args[0]) if x.op == 'size'):
            return None
        if a.op in ('pre', 'lam'):
            return None
        return (DEF, path, a, b)

    def stores(self, a, b, path):
        from terms import arrbase
        b1, l1 = arrbase(a)
        b2, l2 = arrbase(b)
        rb = self.cmp(b1, b2, path)
        if rb[0] != SAME:
            return rb
        d1 = {k.id: (k, v) for k, v in l1}
        d2 = {k.id: (k, v) for k, v in l2}
        rs = []
        only1 = [d1[i] for i in d1 if i not in d2]
        only2 = [d2[i] for i in d2 if i not in d1]
        for i in d1:
            if i in d2:
                rs.append(self.cmp(d1[i][1], d2[i][1], path))
        if len(only1) == 1 and len(only2) == 1:
            rs.append(self.cmp(only1[0][0], only2[0][0], path))
            rs.append(self.cmp(only1[0][1], only2[0][1], path))
        elif only1 and len(only1) == len(only2) and len(only1) <= 3:
            best = None
            for pm in itertools.permutations(only2):
                q = []
                for (k1, v1), (k2, v2) in zip(only1, pm):
                    q += [self.cmp(k1, k2, path), self.cmp(v1, v2, path)]
                sc = sum(z[0] for z in q)
                if best is None or sc < best[0]:
                    best = (sc, q)
            rs += best[1]
        elif only1 or only2:
            o = only1 or only2
            ok = not (only1 and only2) and (all(self.ground(k) for k, v in o) or (only1 and all(self.clean(k) for k, v in o))) and not any(v.taint for k, v in o)
            if ok:
                # an extra / missing write of something else than the current content
                base = b if only1 else a
                rr = [self.cmp(v, sel(base, k), path) if True else None for k, v in o]
                if all(r[0] == SAME for r in rr):
                    ok = None
            if ok is not None:
                rs.append((DEF if ok else UND, path, a, b))
        elif [k for k, v in l1] != [k for k, v in l2]:
            rs.append((UND, path, a, b))
        return self.worst(rs)

    def acset(self, a, b, path):
        x, y = list(a.args), list(b.args)
        cx = [t for t in x if t not in y]
        cy = [t for t in y if t not in x]
        if len(cx) == 1 and len(cy) == 1:
            return self.cmp(cx[0], cy[0], path)
        if all(self.ground(t) for t in cx + cy):
            return (DEF, path, a, b)
        return (UND, path, a, b)

    def cut(self, a, b):
        """a sequence against the same sequence shortened or reordered"""
        return any(x.op in ('dropb', 'drop1', 'trunc', 'rev') and x.args[0] is y and self.clean(y) for x, y in ((a, b), (b, a)))

    def seq(self, a, b, path):
        x = list(a.args) if a.op == 'cat' else [a]
        y = list(b.args) if b.op == 'cat' else [b]
        # split literal runs
        def spl(l):
            out = []
            for t in l:
                if t.op == 'vlit':
                    out += [mkT('vlit', (u,)) for u in t.args]
                else:
                    out.append(t)
            return out
        x, y = [t for t in spl(x) if t is not c('')], [t for t in spl(y) if t is not c('')]
        while x and y and x[0] is y[0]:
            x.pop(0)
            y.pop(0)
        while x and y and x[-1] is y[-1]:
            x.pop()
            y.pop()
        if len(x) == len(y):
            return self.worst([self.cmp(p, q, path) if (p.op == q.op or {p.op, q.op} <= {'vfill', 'tab', 'lst'} or self.cut(p, q)) else
                               (DEF if self.ground(p) and self.ground(q) else UND, path, a, b) for p, q in zip(x, y)])
        r = x or y
        if not x or not y:
            if all(t.op in ('gen', 'tab', 'vfill') and self.clean(t) and self.ground(t.args[0]) and (x or self.ground(t.args[-1])) for t in r) and \
                    not any(at.op == 'ac' and i == 1 for at, i in path.items()):
                return (DEF, path, a, b)
            # a piece is missing on one side
            if any(t.op == 'c' or (t.op == 'vlit' and t.args) for t in r):
                return (DEF, path, a, b)
            if all(self.ground(t) for t in r):
                return (DEF, path, a, b)
            return (UND, path, a, b)
        if all(self.ground(t) for t in x + y):
            return (DEF, path, a, b)
        return (UND, path, a, b)

    def poly(self, a, b, path):
        pa, pb = poly_of(a), poly_of(b)
        d1 = {m: cf for m, cf in pa.items() if pb.get(m) != cf}
        d2 = {m: cf for m, cf in pb.items() if pa.get(m) != cf}
        ts = {t for m in list(d1) + list(d2) for t, e in m}
        if not ts:
            return (DEF, path, a, b)
        if any(t.taint for t in ts):
            return (UND, path, a, b)
        if all(self.ground(t) for t in ts):
            return (DEF, path, a, b)
        if len(d1) == 1 and len(d2) == 1:
            (m1, c1), = d1.items()
            (m2, c2), = d2.items()
            u = [x for x in m1 if x not in m2]
            v = [x for x in m2 if x not in m1]
            su, sv = [t for t, e in m1 if t.op == 'sum' and e == 1], [t for t, e in m2 if t.op == 'sum' and e == 1]
            if len(su) == 1 and len(sv) == 1 and su[0] is not sv[0] and su[0].args[0] is sv[0].args[0] and (len(m1) > 1 or len(m2) > 1):
                self.depth += 1
                try:
                    j = sym('al!%d.i' % self.depth)
                    f = from_poly({tuple(z for z in m1 if z[0] is not su[0]): c1})
                    g = from_poly({tuple(z for z in m2 if z[0] is not sv[0]): c2})
                    return self.cmp(mul(f, inst3(su[0], j)), mul(g, inst3(sv[0], j)), path)
                finally:
                    self.depth -= 1
            if len(u) == 1 and len(v) == 1 and c1 == c2 and u[0][1] == v[0][1]:
                return self.cmp(u[0][0], v[0][0], path)
            if not u and not v and c1 != c2:
                return (DEF, path, a, b)
            # one extra understood factor
            if c1 == c2 and not (u and v):
                w = u or v
                if all(self.ground(t) for t, e in w):
                    return (DEF, path, a, b)
            if c1 == c2 and u and v and all(self.ground(t) for t, e in u + v):
                return (DEF, path, a, b)
            return (UND, path, a, b)
        # terms where only understood factors differ
        if not d1 or not d2:
            dd = d1 or d2
            if all(all(self.ground(t) for t, e in m) for m in dd):
                return (DEF, path, a, b)
            # the reference adds (or the code reads) something that the other side does not depend on
            if len(dd) == 1 and all(self.ground(t) or (self.clean(t) and t.op in ('elem', 'fst', 'snd') or t.op.startswith('fld:')) for m in dd for t, e in m):
                return (DEF, path, a, b)
        if len(ts) and all(t.op in ('self',) or self.ground(t) for t in ts):
            return (DEF, path, a, b)
        if len(d1) == len(d2) and len(d1) <= 3:
            l1 = sorted(d1.items(), key=lambda z: str([t.id for t, e in z[0]]))
            l2 = sorted(d2.items(), key=lambda z: str([t.id for t, e in z[0]]))
            best = None
            for pm in itertools.permutations(l2):
                rs = []
                for (m1, c1), (m2, c2) in zip(l1, pm):
                    rs.append(self.poly(from_poly({m1: c1}), from_poly({m2: c2}), path) if (m1, c1) != (m2, c2) else (SAME, None, None, None))
                r = self.worst(rs)
                sc = sum(q[0] for q in rs)
                if sum(q[0] != SAME for q in rs) > 1:
                    r = (UND, path, a, b)
                if best is None or sc < best[0]:
                    best = (sc, r)
            return best[1]
        return (UND, path, a, b)


def showpath(p):
    out = []
    for a, i in (p or {}).items():
        if a.op == 'ab':
            out.append(('' if i == 0 else 'not ') + show(a.args[0], 8)[:120])
        elif a.op == 'ak':
            out.append('%s is a %s node' % (show(a.args[0], 8)[:80], ('literal', 'top', 'decision')[i]))
        else:
            out.append('%s %s %s' % (show(a.args[0], 8)[:80], '<=>'[i], show(a.args[1])))
    return out
