"""Predicated abstract interpreter: turns a function of the resolved AST into a
value graph (one pass over the structure, loops summarised, no path enumeration,
no solver, nothing executed)."""
import re
from binders import *
import terms as TT

NONNULL.update({'ser', 'vser', 'call:sdd_topological_sort'})


def nobot(v):
    """a loop bound read through a node of the wrong kind is undefined: keep the defined case"""
    memo = {}

    def go(x):
        if x.op != 'ite':
            return x
        r = memo.get(x.id)
        if r is None:
            bs = [go(b) for b in x.args[1:]]
            if x.args[0].op == 'ak':
                ds = [b for b in bs if b is not BOT]
                if ds and all(d is ds[0] for d in ds):
                    memo[x.id] = ds[0]
                    return ds[0]
            r = memo[x.id] = mkord(x.args[0], bs)
        return r
    return go(v)


class Unsupported(Exception):
    pass


def strip_cv(t):
    t = t.strip()
    ch = True
    while ch:
        ch = False
        for p in ('const ', 'volatile '):
            if t.startswith(p):
                t = t[len(p):]
                ch = True
        for s in (' const', ' volatile', '&', ' '):
            if t.endswith(s):
                t = t[:-len(s)]
                ch = True
        if t.endswith('*const'):
            t = t[:-5]
            ch = True
    return t


def isref(t):
    return t.rstrip().endswith('&')


def isptr(t):
    return strip_cv(t).endswith('*')


INTT = {'int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'char', 'signed char', 'unsigned char',
        'long long', 'unsigned long long'}
UNS = {'unsigned int', 'unsigned long', 'unsigned short', 'unsigned char', 'unsigned long long'}
REAL = {'double', 'float', 'long double'}
PRIMREAL = {'PsddParameter'}
MPZ = '__gmp_expr<__mpz_struct[1], __mpz_struct[1]>'


def tmpl(t):
    t = strip_cv(t)
    m = re.match(r'^([\w:() ]+?)<', t)
    return m.group(1) if m else t


def targs(t):
    t = strip_cv(t)
    i = t.find('<')
    if i < 0:
        return []
    s = t[i + 1:t.rfind('>')]
    out, d, cur = [], 0, ''
    for ch in s:
        if ch == '<' or ch == '(':
            d += 1
        elif ch == '>' or ch == ')':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    out.append(cur.strip())
    return out


VECS = {'std::vector', 'std::queue', 'std::stack', 'std::deque', 'std::list', 'std::initializer_list'}
MAPS = {'std::unordered_map', 'std::map', 'std::unordered_set', 'std::set', 'std::bitset'}
STRS = {'std::basic_string', 'std::string'}
OSTR = {'std::basic_ofstream', 'std::basic_ostringstream', 'std::basic_stringstream', 'std::basic_ostream'}
ISTR = {'std::basic_ifstream', 'std::basic_istringstream', 'std::basic_istream'}


def isnumt(t):
    t = strip_cv(t)
    return t in INTT or t in REAL or t in PRIMREAL or t.startswith('__gmp_expr') or t == 'bool'


def isrealt(t):
    t = strip_cv(t)
    return t in REAL or t in PRIMREAL


UNIQF = {('uniq', 'T'): {'PsddNode::vtree_node_': 1, 'PsddTopNode::variable_index_': 3, 'PsddTopNode::true_parameter_': 4, 'PsddTopNode::false_parameter_': 5},
         ('uniq', 'L'): {'PsddNode::vtree_node_': 1, 'PsddLiteralNode::literal_': 3},
         'topnode': {'PsddTopNode::variable_index_': 1, 'PsddTopNode::true_parameter_': 3, 'PsddTopNode::false_parameter_': 4},
         'litnode': {'PsddLiteralNode::literal_': 1}}


def uniqfield(n, f):
    """a node from the unique table has the content that was asked for"""
    if n.op in ('uniq', 'topnode', 'litnode'):
        i = UNIQF.get((n.op, n.args[0]) if n.op == 'uniq' else n.op, {}).get(f)
        if i is not None and i < len(n.args):
            return n.args[i]
        if n.op == 'uniq':
            return mkT('fld:' + f, (n,))
    return None


def endfact(v, kname, M0):
    """within the walk over M0 the iterator is not at the end"""
    K = sym(kname)
    memo = {}

    def go(t):
        if kname not in t.free:
            return t
        r = memo.get(t.id)
        if r is None:
            a = t.args[0] if t.op == 'ite' else None
            if a is not None and a.op == 'ab' and a.args[0].op == 'mapend' and a.args[0].args[1] is K and a.args[0].args[2] is M0:
                r = go(t.args[2])
            else:
                r = TT.rebuild(t, go)
            memo[t.id] = r
        return r
    return go(v)


def spine(v, f):
    """a simplification valid throughout a step, also applied to the values the step stores"""
    v = f(v)

    def go(x):
        if x.op == 'store':
            return TT._st(spine(x.args[0], f), f(x.args[1]), spine(x.args[2], f))
        return x
    return lift(go, [v])


def freshkey(v, me, d):
    """store(m, k, has(m,k) ? f(m[k]) : f(default)) is store(m, k, f(m[k]))"""
    def go(x):
        if x.op == 'store' and x.args[0] is me:
            _, k, val = x.args
            for a in list(atoms(val)):
                if a.op == 'ab' and a.args[0].op == 'has' and a.args[0].args[0] is me and a.args[0].args[1] is k:
                    yes, no = cofactor(val, a, 0), cofactor(val, a, 1)
                    if subst(yes, {mkT('elem', (me, k)): d}) is no:
                        return TT._st(me, k, yes)
        return x
    return lift(go, [v])


class State:
    __slots__ = ('v', 'pc', 'assume')

    def __init__(self):
        self.v = {}
        self.pc = TRUE
        self.assume = TRUE

    def clone(self):
        s = State()
        s.v = dict(self.v)
        s.pc = self.pc
        s.assume = self.assume
        return s


class Frame:
    ctr = [0]

    def __init__(self, fn, this=None):
        Frame.ctr[0] += 1
        self.id = Frame.ctr[0]
        self.fn = fn
        self.this = this
        self.alias = {}
        self.lams = {}
        self.retref = False


def key(fr, vid):
    return 'v%d.%d' % (fr.id, vid)


def loc(k):
    return mkT('loc', (k,))


def L_fld(b, f):
    return app('L.fld', b, f)


def boolval(v):
    return all(x is TRUE or x is FALSE or x is BOT for x in leaves(v))


WBITS = {'char': 7, 'signed char': 7, 'unsigned char': 8, 'short': 15, 'unsigned short': 16, 'int': 32, 'unsigned int': 32, 'float': 24}
WIDE = set()        # parameters that carry machine words
SMALLF = {'PsddNode::node_index_', 'PsddNode::hash_value_', 'PsddParameter::hash_value_', 'PsddNode::user_data_'}


def widelevel(v, recs, memo=None):
    """bits a value may need as far as it is known: 64 for counts and weights of unrestricted size, 32 for sizes and indexes,
    16 for variables and literals, 0 otherwise"""
    memo = {} if memo is None else memo
    if v.id in memo:
        return memo[v.id]
    memo[v.id] = 0
    op = v.op

    def of(xs):
        return max([widelevel(x, recs, memo) for x in xs if isinstance(x, T)] or [0])
    r = 0
    if op == 'size':
        r = 32
    elif op == 'sym':
        r = 64 if v in WIDE else 17 if re.match(r'(b|k#)\d+$', str(v.args[0])) else 0
    elif op in ('rdi', 'rdu'):
        r = 32
    elif op == 'vt:var':
        r = 16
    elif op.startswith('fld:'):
        n = op[4:]
        t = [f['t'] for f in recs.get(n.split('::')[0], {}).get('fields', []) if f['n'] == n]
        r = 32 if n in SMALLF else 64 if t and 'unsigned long' in t[0] else 16 if n == 'PsddLiteralNode::literal_' else 0
    elif op == 'ite':
        r = of(v.args[1:])
    elif op == 'poly':
        for m in TT.poly_of(v):
            r = max(r, of([f for f, _ in m]))
    elif op in ('elem', 'fst', 'snd', 'max', 'min', 'abs', 'drop1', 'dropb', 'sort'):
        r = of(v.args[:1])
    elif op in ('sum', 'sum1', 'recur', 'first'):
        col = []
        TT._collect(v.args, col)
        r = of([x for x in col if x.op != 'size'])
    memo[v.id] = r
    return r


class Engine:
    def __init__(self, prog, opts=None):
        self.prog = prog
        self.opts = opts or {}
        self.opaque = self.opts.get('opaque', {})      # sig/name -> handler or opname
        self.S = State()
        self.stack = []
        self.loopstack = []
        self.rec = True
        self.events = []
        self.fresh = 0
        self.prim = self.opts.get('prim', True)
        self.steps = 0
        self.notes = []
        self.mapends = []
        self.inlined = set()
        self.nloops = 0

    # ------------------------------------------------------------ helpers
    def nm(self, p):
        self.fresh += 1
        return '%s#%d' % (p, self.fresh)

    def event(self, kind, data, e=None):
        if self.rec:
            self.events.append((kind, band(self.S.assume, self.S.pc), data, (e or {}).get('l', 0),
                                self.stack[-1].fn.where() if self.stack and self.stack[-1].fn else '', tuple(self.loopstack)))

    def ctx(self):
        return band(self.S.assume, self.S.pc)

    def simp(self, v):
        if v.op != 'ite':
            return v
        return restrict(v, self.ctx())

    def top(self, why, e=None):
        self.notes.append('%s @%s' % (why, (e or {}).get('l', '?')))
        return top(why)

    def default(self, t):
        t = strip_cv(t)
        if t in INTT or t in REAL:
            return ZERO
        if t == 'bool':
            return FALSE
        if t.endswith('*'):
            return NULL
        tm = tmpl(t)
        if tm in VECS:
            return mkT('vlit', ())
        if tm == 'std::bitset':
            return mkT('mempty', (FALSE,))
        if tm in ('std::unordered_set', 'std::set'):
            return mkT('mempty', (FALSE,))
        if tm in MAPS:
            a = targs(t)
            return mkT('mempty', (self.default(a[1]) if len(a) > 1 else FALSE,))
        if tm in STRS or tm in OSTR:
            return c('')
        if tm in ISTR:
            return mkT('ist', (c('unopened'),))
        if tm == 'std::pair':
            a = targs(t)
            return pair(self.default(a[0]), self.default(a[1]))
        if t == 'PsddParameter' and self.prim:
            return ZERO
        if t.startswith('__gmp_expr'):
            return ZERO
        if tm == 'std::unique_ptr':
            return NULL
        return mkT('undef', (t,))

    # ------------------------------------------------------------ lvalues
    def rd(self, lv):
        return self.simp(lift(self._rd, [lv]))

    def arr(self, k):
        a = self.S.v.get(k)
        if a is None:
            a = mkT('arr0', (k[2:],))
            self.S.v[k] = a
        return a

    def _rd(self, lv):
        o = lv.op
        a = lv.args
        if lv is BOT or lv is NULL:
            return BOT
        if o == 'loc':
            v = self.S.v.get(a[0])
            return v if v is not None else mkT('undef', ('local',))
        if o == 'L.fld':
            b, f = a
            if b.op == 'L.obj':
                if b.args[0] is NULL:
                    return BOT
                if b.args[0].op == 'box':
                    return getf(b.args[0].args[0], f)
                v = uniqfield(b.args[0], f)
                if v is not None:
                    return v
                return sel(self.arr('f:' + f), b.args[0])
            return getf(self.rd(b), f)
        if o in ('L.idx', 'L.key'):
            v = sel(self.rd(a[0]), a[1])
            return v
        if o == 'L.mit':
            return pair(a[1], sel(self.rd(a[0]), a[1]))
        if o == 'L.mset':
            return a[1]
        if o == 'L.fst':
            return fst(self.rd(a[0]))
        if o == 'L.snd':
            return snd(self.rd(a[0]))
        if o == 'L.obj':
            p, t = a
            if p is NULL or p is ZERO:
                return BOT
            if p.op == 'box':
                return p.args[0]
            if p.op == 'ptr':
                return self.rd(p.args[0])
            if self.isbig(t):
                return p if t == 'PsddParameter' and p.op == 'sym' else mkT('deref', (p,))
            return sel(self.arr('m:' + t), p)
        if o == 'L.val':
            return a[0]
        return self.top('read of ' + o)

    def isbig(self, t):
        return t in self.prog.recs and not (t == 'PsddParameter' and self.prim)

    def allfields(self, t):
        r = self.prog.recs.get(t)
        if r is None:
            return []
        out = []
        for b in r.get('bases', []):
            out += self.allfields(b if isinstance(b, str) else b.get('n'))
        return out + [f['n'] for f in r['fields']]

    def wr(self, lv, val):
        val = self.simp(val)
        if lv.op == 'ite':
            for cnd, lf in self.cases(lv):
                self._wr(lf, val, cnd)
        else:
            self._wr(lv, val, TRUE)

    def cases(self, v):
        out = []
        pcx = self.ctx()
        for lf in list(leaves(v)):
            cnd = lift(lambda x: TRUE if x is lf else FALSE, [v])
            if band(cnd, pcx) is not FALSE:
                out.append((cnd, lf))
        return out

    def guard(self, cnd, new, old):
        return ite(band(self.S.pc, cnd), new, old)

    def _wr(self, lv, val, cnd):
        o = lv.op
        a = lv.args
        if o == 'loc':
            old = self.S.v.get(a[0])
            if old is None:
                old = mkT('undef', ('local',))
            self.S.v[a[0]] = self.guard(cnd, val, old)
            return
        if o == 'L.fld':
            b, f = a
            if b.op == 'L.obj':
                if b.args[0] is NULL:
                    return
                k = 'f:' + f
                old = self.arr(k)
                self.S.v[k] = self.gstore(cnd, old, b.args[0], val)
                return
            old = self.rd(b)
            self._wr_any(b, setf(old, f, val), cnd)
            return
        if o in ('L.idx', 'L.key'):
            old = self.rd(a[0])
            self._wr_any(a[0], self.gstore(cnd, old, a[1], val, pcg=False), cnd)
            return
        if o == 'L.mit':
            self._wr_any(L_mk('L.key', a[0], a[1]), snd(val), cnd)
            return
        if o == 'L.fst':
            self._wr_any(a[0], pair(val, snd(self.rd(a[0]))), cnd)
            return
        if o == 'L.snd':
            if a[0].op == 'L.mit':
                self._wr_any(L_mk('L.key', a[0].args[0], a[0].args[1]), val, cnd)
                return
            self._wr_any(a[0], pair(fst(self.rd(a[0])), val), cnd)
            return
        if o == 'L.obj':
            p, t = a
            if p is NULL or p is BOT:
                return
            if p.op == 'ptr':
                self._wr_any(p.args[0], val, cnd)
                return
            if self.isbig(t):
                for f in self.allfields(t):
                    self._wr(L_fld(lv, f), getf(val, f), cnd)
                return
            k = 'm:' + t
            old = self.arr(k)
            self.S.v[k] = self.gstore(cnd, old, p, val)
            return
        if o == 'L.val' or lv is BOT or lv is NULL:
            return
        self.top('write to ' + o)
        # an unknown location may be anything: poison the whole state we track
        for k in list(self.S.v):
            self.S.v[k] = top('unknown write')

    def gstore(self, cnd, old, k, val, pcg=True):
        g = band(self.S.pc, cnd) if pcg else cnd
        if g is TRUE:
            return store(old, k, val)
        return store(old, k, ite(g, val, sel(old, k))) if not (old.op == 'ite') else ite(g, store(old, k, val), old)

    def _wr_any(self, lv, val, cnd):
        if lv.op == 'ite':
            for c2, lf in self.cases(lv):
                self._wr(lf, val, band(cnd, c2))
        else:
            self._wr(lv, val, cnd)

    def temp(self, v):
        k = self.nm('tmp')
        self.S.v[k] = v
        return loc(k)

    # value of address-of
    def addr(self, lv):
        def f(x):
            if x.op == 'L.obj':
                return x.args[0]
            if x is BOT:
                return BOT
            return mkT('ptr', (x,))
        return lift(f, [lv])

    def obj(self, p, t):
        t = strip_cv(t)

        def f(x):
            if x.op == 'ptr':
                return x.args[0]
            if x is BOT or x is NULL or x is ZERO:
                return BOT
            return mkT('L.obj', (x, t))
        return lift(f, [p])

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        self.steps += 1
        v = self._ev(e)
        if e.get('t') == 'bool' and v.op != 'loc':
            v = asbool(v) if not boolval(v) else v
        return v

    def _ev(self, e):
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            return self.top('expr ' + e['k'], e)
        return m(e)

    def e_int(self, e):
        return c(int(e['v']))

    def e_flt(self, e):
        return c(Fraction(e['v']))

    def e_str(self, e):
        return c(e['v'])

    def e_bool(self, e):
        return TRUE if e['v'] else FALSE

    def e_null(self, e):
        return NULL

    def e_zero(self, e):
        return self.default(e['t'])

    def e_this(self, e):
        return self.stack[-1].this

    def e_var(self, e):
        return self.rd(self.lv(e))

    def e_field(self, e):
        return self.rd(self.lv(e))

    def e_deref(self, e):
        return self.rd(self.lv(e))

    def e_index(self, e):
        return self.rd(self.lv(e))

    def e_fnref(self, e):
        return mkT('fn', (e['sig'],))

    def e_copy(self, e):
        v = self.ev(e['e'])
        return v

    def e_unk(self, e):
        if e.get('why') == 'SourceLocExpr':
            return c('srcloc')
        for x in e.get('xs', []):
            self.ev(x)
        return self.top('construct ' + e.get('why', ''), e)

    def e_cast(self, e):
        ck = e['ck']
        v = self.ev(e['e'])
        if ck in ('IntegralToBoolean', 'FloatingToBoolean'):
            if e['e'].get('t') == 'bool':
                return v
            return compare('!=', v, ZERO)
        if ck in ('PointerToBoolean', 'MemberPointerToBoolean'):
            return bnot(eq(v, NULL))
        if ck in ('IntegralToFloating', 'FloatingCast', 'IntegralCast'):
            if strip_cv(e['e'].get('t', '')) == 'bool':
                return ite(v, ONE, ZERO)
            v = self.narrowed(v, strip_cv(e['e'].get('t', '')), strip_cv(e['t']))
            if ck == 'IntegralCast' and strip_cv(e['t']) == 'bool':
                return compare('!=', v, ZERO)
            return v
        if ck == 'FloatingToIntegral':
            return app('trunc', v)
        if ck == 'ToVoid':
            return ZERO
        if e.get('dyn'):
            tgt = strip_cv(e['t'])
            i = {'PsddLiteralNode *': 0, 'PsddTopNode *': 1, 'PsddDecisionNode *': 2}.get(tgt)
            if i is not None:
                return lift(lambda n: kindsel(n, [n if j == i else NULL for j in range(3)]) if n is not NULL else NULL, [v])
            return self.top('dynamic_cast', e)
        return v

    def e_cond(self, e):
        b = e['b']
        if b.get('k') == 'call' and b.get('fn') in ('__assert_fail', '__assert'):
            cv = self.ev(e['c'])
            self.event('assert', cv, e)
            if cv is FALSE:
                self.die(mkT('abort', ()))
            elif not self.loopstack and cv.op == 'ite' and all(a.op == 'ak' for a in atoms(cv)) and band(self.S.pc, cv) is not FALSE:
                # stated precondition on a node's kind: the other kinds are undefined
                self.S.pc = band(self.S.pc, cv)
            return ZERO
        cv = self.simp(self.ev(e['c']))
        if cv is TRUE:
            return self.ev(e['a'])
        if cv is FALSE:
            return self.ev(e['b'])
        S = self.S
        pc = S.pc
        S.pc = band(pc, cv)
        a = self.ev(e['a'])
        p1 = S.pc
        S.pc = band(pc, bnot(cv))
        b = self.ev(e['b'])
        S.pc = bor(p1, S.pc)
        return ite(cv, a, b)

    def e_un(self, e):
        op = e['op']
        if op == '!':
            return bnot(asbool(self.ev(e['e'])))
        if op == '-':
            return neg(self.ev(e['e']))
        if op == '~':
            return app('bnot', self.ev(e['e']))
        if op == '&':
            return self.addr(self.lv(e['e']))
        if op in ('++x', 'x++', '--x', 'x--'):
            lv = self.lv(e['e'])
            old = self.rd(lv)
            d = ONE if '+' in op else c(-1)
            num = isnumt(e['e'].get('t', '')) and not any(x.op in ('it', 'rit', 'nit', 'ptr') for x in leaves(old))
            new = add(old, d) if num else self.advance(old, d)
            self.wr(lv, new)
            return old if op[0] == 'x' else new
        return self.top('unary ' + op, e)

    def advance(self, v, d):
        def f(x):
            if x.op in ('it', 'rit'):
                return mkT(x.op, (x.args[0], add(x.args[1], d)))
            if x.op == 'nit':
                return mkT('nit', (x.args[0], add(x.args[1], d), x.args[2]))
            if x.op == 'itadd':
                return self.advance(x.args[0], add(x.args[1], d)) if x.args[0].op != 'sym' else mkT('itadd', (x.args[0], add(x.args[1], d)))
            if x.op == 'ptr' and x.args[0].op == 'L.idx':
                return mkT('ptr', (mkT('L.idx', (x.args[0].args[0], add(x.args[0].args[1], d))),))
            if x.op == 'sym' and str(x.args[0]).startswith('c!'):
                return mkT('itadd', (x, d))
            if x is BOT:
                return x
            return add(x, d)
        return lift(f, [v])

    def e_bin(self, e):
        op = e['op']
        if op == '&&':
            a = asbool(self.ev(e['a']))
            a = self.simp(a)
            if a is FALSE:
                return FALSE
            pc = self.S.pc
            self.S.pc = band(pc, a)
            b = asbool(self.ev(e['b']))
            self.S.pc = bor(self.S.pc, band(pc, bnot(a)))
            return band(a, b)
        if op == '||':
            a = asbool(self.ev(e['a']))
            a = self.simp(a)
            if a is TRUE:
                return TRUE
            pc = self.S.pc
            self.S.pc = band(pc, bnot(a))
            b = asbool(self.ev(e['b']))
            self.S.pc = bor(self.S.pc, band(pc, a))
            return bor(a, b)
        if op == ',':
            self.ev(e['a'])
            return self.ev(e['b'])
        a = self.ev(e['a'])
        b = self.ev(e['b'])
        return self.binop(op, a, b, e['a'].get('t', ''), e['b'].get('t', ''), e)

    def binop(self, op, a, b, ta, tb, e):
        if op in ('<', '>', '<=', '>=', '==', '!='):
            return self.cmpop(op, a, b, ta, tb)
        if boolval(a) and op in ('+', '-', '*', '/'):
            a = ite(a, ONE, ZERO)
        if boolval(b) and op in ('+', '-', '*', '/'):
            b = ite(b, ONE, ZERO)
        if op == '+':
            if self.isit(a) or isptr(ta):
                return self.padd(a, b, ta)
            return add(a, b)
        if op == '-':
            if self.isit(a) and self.isit(b):
                return lift(lambda x, y: sub(x.args[1], y.args[1]) if x.op == y.op and x.op in ('it', 'rit') else top('itdiff'), [a, b])
            if self.isit(a):
                return self.advance(a, neg(b))
            return sub(a, b)
        if op == '*':
            return mul(a, b)
        if op == '/':
            if isrealt(ta) or isrealt(tb):
                return div(a, b)
            return app('idiv', a, b)
        if op == '%':
            return app('mod', a, b)
        if op == '<<':
            return app('shl', a, b)
        if op == '>>':
            return app('shr', a, b)
        if op in ('&', '|', '^') and (strip_cv(ta) == 'bool' or boolval(a)) and boolval(b):
            return {'&': band, '|': bor, '^': lambda x, y: bnot(beq(x, y))}[op](asbool(a), asbool(b))
        if op in ('&', '|', '^'):
            def ac(x, y):
                xs = []
                for z in (x, y):
                    xs += list(z.args) if z.op == 'bit' + op else [z]
                if op == '^':
                    xs = [z for z in xs if z is not ZERO]
                    if not xs:
                        return ZERO
                if len(xs) == 1:
                    return xs[0]
                return mkT('bit' + op, tuple(sorted(xs, key=lambda z: z.id)))
            return lift(ac, [a, b])
        return self.top('binary ' + op, e)

    def padd(self, a, b, ta):
        def f(x, y):
            if x.op in ('it', 'rit'):
                return mkT(x.op, (x.args[0], add(x.args[1], y)))
            if x.op == 'ptr' and x.args[0].op == 'L.idx':
                return mkT('ptr', (mkT('L.idx', (x.args[0].args[0], add(x.args[0].args[1], y))),))
            return mkT('padd', (x, y))
        return lift(f, [a, b])

    def isit(self, v):
        return any(x.op in ('it', 'rit', 'itadd') for x in leaves(v))

    def narrowed(self, v, t, to=''):
        """what is left of a value that was kept in a narrower type; counted when it is used again"""
        w = WBITS.get(t)
        if w is None or v.op in ('c', 'top') or WBITS.get(to, 64) <= w and to not in ('float', 'double'):
            return v
        if w == 24:
            return lift(lambda x: x if x.op == 'c' else app('single', x), [v]) if not any(x.op == 'single' for x in leaves(v)) else v
        return lift(lambda x: app('wrap%d' % w, x) if widelevel(x, self.prog.recs) > w else x, [v])

    def cmpop(self, op, a, b, ta='', tb=''):
        if strip_cv(ta) in WBITS and strip_cv(tb) in WBITS:
            a, b = self.narrowed(a, strip_cv(ta)), self.narrowed(b, strip_cv(tb))
        def anyop(v, ops):
            return any(x.op in ops for x in leaves(v))
        if op == '!=':
            return bnot(self.cmpop('==', a, b, ta, tb))
        its = ('it', 'rit', 'mit', 'mend', 'fit', 'itadd', 'nit')
        if anyop(a, its) or anyop(b, its):
            return lift(lambda x, y: self.iteq(op, x, y), [a, b])
        if boolval(a) and boolval(b) and op == '==' and not (a is FALSE and isnumt(tb) and strip_cv(tb) != 'bool'):
            return beq(a, b)
        if boolval(a):
            a = ite(a, ONE, ZERO)
        if boolval(b):
            b = ite(b, ONE, ZERO)
        num = isnumt(ta) and isnumt(tb)
        if not num and op != '==':
            if op in ('<', '>', '<=', '>='):
                num = True
        if num:
            integer = not (isrealt(ta) or isrealt(tb))
            return compare(op, a, b, integer)
        return eq(a, b)

    def iteq(self, op, x, y):
        if x.op in ('it', 'rit') and y.op == x.op:
            if x.args[0] is y.args[0] and op in ('==', '!='):
                # a valid iterator is never outside [begin, end]
                n = size(self.rd(x.args[0]))
                a, b = (x, y) if y.args[1] is n else (y, x)
                if b.args[1] is n and a.args[1] is not n:
                    return compare('<' if op == '!=' else '>=', a.args[1], n)
            return compare(op, x.args[1], y.args[1])
        if op == '==':
            if y.op == 'mit' and x.op == 'mend':
                x, y = y, x
            if x.op == 'mit' and y.op == 'mend':
                return bnot(has(self.rd(x.args[0]), x.args[1]))
            if x.op == 'mend' and y.op == 'mend':
                return TRUE
            if y.op == 'fit':
                x, y = y, x
            if x.op == 'fit':
                V = self.rd(x.args[0])
                n = self.nm('k')
                return bnot(mk_exists(size(V), n, eq(sel(V, sym(n)), x.args[1])))
            if x.op == 'nit' or y.op == 'nit':
                if y.op == 'nit':
                    x, y = y, x
                if y.op == 'mend' and y.args[0] is x.args[0]:
                    self.mapends.append((x.args[0], x.args[2]))
                    return asbool(mkT('mapend', x.args))
        return asbool(mkT('cmpit' + op, (x, y)))

    def e_undefv(self, e):
        return mkT('undef', ('gone',))

    def e_asg(self, e):
        op = e['op']
        if op == '=':
            b = self.ev(e['b'])
            lv = self.lv(e['a'])
            self.wr(lv, b)
            return b
        lv = self.lv(e['a'])
        b = self.ev(e['b'])
        a = self.rd(lv)
        v = self.binop(op[:-1], a, b, e['a'].get('t', ''), e['b'].get('t', ''), e)
        self.wr(lv, v)
        return v

    def e_lambda(self, e):
        k = mkT('lamref', (id(e), self.stack[-1].id))
        self.lamtab[k.id] = (e, self.stack[-1])
        return k
    lamtab = {}

    def e_init(self, e):
        xs = [self.ev(x) for x in e['xs']]
        t = strip_cv(e['t'])
        if e.get('fs'):
            return rec(t, dict(zip(e['fs'], xs)))
        if tmpl(t) == 'std::pair' and len(xs) == 2:
            return pair(*xs)
        return mkT('vlit', tuple(xs))

    def e_ilist(self, e):
        return self.ev(e['e'])

    def e_stmtexpr(self, e):
        self.st(e['s'])
        return ZERO

    def e_throw(self, e):
        if e.get('e'):
            self.ev(e['e'])
        self.die(mkT('throw', ()))
        return ZERO

    def e_new(self, e):
        t = e['ty']
        if e.get('arr'):
            n = self.ev(e['n']) if e.get('n') else ZERO
            self.event('new', t, e)
            return mkT('ptr', (self.temp(mkT('vfill', (n, self.default(t)))),)) if n.op != 'ite' else self.top('new[]', e)
        if t in self.prog.recs:
            ini = e.get('init')
            if ini and ini['k'] == 'ctor':
                args = [self.arg(a, p) for a, p in zip(ini['args'], ini['pt'])]
                self.event('newobj', (t, [self.argval(x) for x in args]), e)
                return self.newobj(t, ini, args, e)
            v = self.ev(ini) if ini else self.default(t)
            return app_box(v)
        v = self.ev(e['init']) if e.get('init') else self.default(t)
        self.event('new', t, e)
        return app_box(v)

    def newobj(self, t, ini, args, e):
        vals = [self.argval(a) for a in args]
        h = self.opts.get('newhook')
        if h:
            r = h(self, t, ini, vals, e)
            if r is not None:
                return r
        v = self.construct(t, ini, args, e)
        return app_box(v)

    def e_delete(self, e):
        v = self.ev(e['e'])
        self.event('delete', v, e)
        return ZERO

    # ------------------------------------------------------------ lvalue evaluation
    def lv(self, e):
        k = e['k']
        if k == 'var':
            return self.varlv(e)
        if k == 'field':
            b = self.lv(e['obj'])
            f = e['f']
            if f.endswith('::first') and f.startswith('std::pair'):
                return lift(lambda x: self._fst(x), [b])
            if f.endswith('::second') and f.startswith('std::pair'):
                return lift(lambda x: self._snd(x), [b])
            return lift(lambda x: mkT('L.fld', (x, f)) if x is not BOT else BOT, [b])
        if k == 'deref':
            p = self.ev(e['e'])
            self.event('deref', p, e)
            return self.derefv(p, e['t'])
        if k == 'index':
            a = self.ev(e['a'])
            i = self.ev(e['b'])
            return self.idxlv(a, i)
        if k == 'call' or k == 'mcall':
            r = self.call(e, want='lv')
            if r[0] == 'lv':
                return r[1]
            return self.temp(r[1])
        if k == 'asg' or (k == 'un' and e['op'] in ('++x', '--x')):
            self.ev(e)
            return self.lv(e['a'] if k == 'asg' else e['e'])
        if k == 'cond':
            if e['b'].get('fn') in ('__assert_fail',):
                self.ev(e)
                return self.temp(ZERO)
            cv = self.simp(self.ev(e['c']))
            return ite(cv, self.lv(e['a']), self.lv(e['b']))
        if k == 'cast':
            ck = e['ck']
            if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'BitCast', 'Dynamic'):
                if not isptr(e['t']):
                    return self.lv(e['e'])
            return self.temp(self.ev(e))
        if k == 'this':
            return self.temp(self.stack[-1].this)
        return self.temp(self.ev(e))

    def _fst(self, x):
        return mkT('L.fst', (x,)) if x is not BOT else BOT

    def _snd(self, x):
        if x.op == 'L.mit':
            return mkT('L.key', (x.args[0], x.args[1]))
        return mkT('L.snd', (x,)) if x is not BOT else BOT

    def idxlv(self, a, i):
        def f(x, y):
            if x.op == 'ptr':
                if x.args[0].op == 'L.idx':
                    return mkT('L.idx', (x.args[0].args[0], add(x.args[0].args[1], y)))
                return mkT('L.idx', (x.args[0], y))
            if x is NULL or x is BOT:
                return BOT
            return mkT('L.idx', (mkT('L.val', (x,)), y))
        return lift(f, [a, i])

    def derefv(self, p, t):
        t = strip_cv(t)

        def f(x):
            if x.op == 'it':
                return mkT('L.idx', (x.args[0], x.args[1]))
            if x.op == 'rit':
                return lift(lambda s: mkT('L.idx', (x.args[0], s)), [sub(sub(size(self.rd(x.args[0])), ONE), x.args[1])])
            if x.op in ('mit', 'nit'):
                k = x.args[1] if x.op == 'mit' else mkT('mkey', (x.args[2], x.args[1]))
                if 'std::pair<' in t:
                    return mkT('L.mit', (x.args[0], k))
                # an element of a set: under an order of its own, the stored element equivalent to the key
                return mkT('L.val', (sel(self.rd(x.args[0]), k) if len(x.args) > 2 and x.op == 'mit' else k,))
            if x.op == 'ptr':
                return x.args[0]
            if x.op == 'fit':
                return mkT('L.val', (x.args[1],))
            if x is BOT or x is NULL or x is ZERO:
                return BOT
            if x.op == 'mend':
                return BOT
            return mkT('L.obj', (x, t))
        return lift(f, [p])

    def varlv(self, e):
        fr = self.stack[-1]
        if 'g' in e:
            return loc('g:' + e['g']) if self.globalinit(e) else loc('g:' + e['g'])
        vid = e['id']
        f = fr
        while f is not None:
            if vid in f.alias:
                return f.alias[vid]
            k = key(f, vid)
            if k in self.S.v:
                return loc(k)
            f = getattr(f, 'parent', None)
        return loc(key(fr, vid))

    def globalinit(self, e):
        k = 'g:' + e['g']
        if k in self.S.v:
            return True
        g = self.prog.globals.get((self.stack[-1].fn.tu if self.stack[-1].fn else '', e['g'])) or self.prog.globals.get(e['g'])
        if e['g'] in ('std::cout', 'std::cerr', 'std::clog', 'std::cin'):
            self.S.v[k] = c('')
        elif g and g.get('init') and 'const' in g['t']:
            self.S.v[k] = self.ev(g['init'])
        else:
            self.S.v[k] = sym('g:' + e['g'])
        return True

    # ------------------------------------------------------------ statements
    _dead = FALSE

    def die(self, how):
        S = self.S
        if self.opts.get('noexit'):
            self._dead = bor(self._dead, S.pc)
            S.pc = FALSE
            return
        S.v['exit'] = ite(S.pc, how, S.v.get('exit', c('no')))
        self.event('exit', how)
        S.pc = FALSE

    def st(self, s):
        if s is None:
            return
        if self.S.pc is FALSE:
            return
        if self.steps > 3_000_000:
            raise Blowup('steps')
        getattr(self, 's_' + s['k'], self.s_unk)(s)

    def s_unk(self, s):
        self.top('stmt ' + s['k'] + ' ' + s.get('why', ''), s)
        for k in list(self.S.v):
            self.S.v[k] = top('unknown stmt')

    def s_pycall(self, s):
        s['f']()

    def s_block(self, s):
        for x in s['xs']:
            self.st(x)

    def s_decls(self, s):
        for x in s['xs']:
            self.decl(x)

    def s_decl(self, s):
        self.decl(s)

    def decl(self, d, val=None):
        fr = self.stack[-1]
        t = d['t']
        if val is None and isref(t) and d.get('init') is not None:
            lv = self.lv(d['init'])
            fr.alias[d['id']] = lv
            return
        k = key(fr, d['id'])
        if val is None and d.get('static') and not re.search(r'\bconst\b(?!.*[*&])|\* ?const$', t):
            # what an earlier call left there
            k = 'g:static %s %s' % (fr.fn.sig if fr.fn else '', d['n'])
            if k not in self.S.v:
                if re.match(r'std::(unordered_)?(map|set|multimap|multiset)<', strip_cv(t)):
                    TT.MAPSYMS.add(k)
                self.S.v[k] = sym(k)
            fr.alias[d['id']] = loc(k)
            return
        if val is None:
            if d.get('init') is not None:
                val = self.ev(d['init'])
            else:
                val = mkT('undef', (strip_cv(t),)) if (strip_cv(t) in INTT or strip_cv(t) in REAL or strip_cv(t) == 'bool' or isptr(t)) else self.default(t)
            if d.get('asz') is not None and val.op == 'undef':
                val = mkT('vfill', (c(d['asz']), mkT('undef', ('elt',))))
        if strip_cv(t) == 'bool':
            val = asbool(val)
        fr.alias.pop(d['id'], None)
        self.S.v[k] = self.simp(val)

    def s_expr(self, s):
        self.ev(s['e'])

    def s_nop(self, s):
        pass

    def s_label(self, s):
        self.st(s['s'])

    def s_try(self, s):
        self.st(s['body'])

    def s_if(self, s):
        if s.get('init'):
            self.st(s['init'])
        if s.get('cv'):
            self.st(s['cv'])
        cv = nobot(self.simp(asbool(self.ev(s['c']))))
        S = self.S
        pc = S.pc
        dead, self._dead = self._dead, FALSE
        S.pc = band(pc, cv)
        if S.pc is not FALSE and band(S.assume, S.pc) is not FALSE:
            self.st(s['a'])
        p1 = S.pc
        S.pc = band(pc, bnot(cv))
        if p1 is FALSE and self._dead is band(pc, cv) and self._dead is not FALSE:
            S.pc = pc           # only runs that go on are looked at
            self._dead = FALSE
        self._dead = bor(dead, self._dead)
        if s.get('b') and S.pc is not FALSE and band(S.assume, S.pc) is not FALSE:
            self.st(s['b'])
        S.pc = bor(p1, S.pc)

    def s_ret(self, s):
        fr = self.stack[-1]
        S = self.S
        rk, rv = 'ret%d' % fr.id, 'rv%d' % fr.id
        v = None
        if s.get('e') is not None:
            v = self.lv(s['e']) if fr.retref else self.ev(s['e'])
            if getattr(fr, 'rett', '') == 'bool':
                v = asbool(v)
            v = self.simp(v)
        if v is not None:
            S.v[rv] = ite(S.pc, v, S.v.get(rv, mkT('undef', ('ret',))))
        S.v[rk] = bor(S.pc, S.v.get(rk, FALSE))
        S.pc = FALSE

    def s_break(self, s):
        k = self.loopstack_ctl[-1][0]
        self.S.v[k] = bor(self.S.v.get(k, FALSE), self.S.pc)
        self.S.pc = FALSE

    def s_continue(self, s):
        k = [x for x in self.loopstack_ctl if x[1] is not None][-1][1]
        self.S.v[k] = bor(self.S.v.get(k, FALSE), self.S.pc)
        self.S.pc = FALSE
    loopstack_ctl = []

    def s_switch(self, s):
        if s.get('init'):
            self.st(s['init'])
        v = self.ev(s['c'])
        items = []   # flattened list of (labels or None, stmt)

        def flat(x, labs):
            if x['k'] == 'case':
                flat(x['s'], labs + [('case', x['v'])])
            elif x['k'] == 'default':
                flat(x['s'], labs + [('default', None)])
            else:
                items.append((labs, x))
        body = s['body']
        for x in (body['xs'] if body['k'] == 'block' else [body]):
            flat(x, [])
        S = self.S
        pc0 = S.pc
        bk = self.nm('brk')
        S.v[bk] = FALSE
        self.loopstack_ctl.append((bk, None))
        allc = FALSE
        for labs, x in items:
            for kd, ce in labs:
                if kd == 'case':
                    allc = bor(allc, self.cmpop('==', v, self.ev(ce), 'int', 'int'))
        S.pc = FALSE
        for labs, x in items:
            for kd, ce in labs:
                if kd == 'case':
                    e = self.cmpop('==', v, self.ev(ce), 'int', 'int')
                else:
                    e = bnot(allc)
                S.pc = bor(S.pc, band(pc0, e))
            self.st(x)
        self.loopstack_ctl.pop()
        hasdef = any(kd == 'default' for labs, _ in items for kd, _ in labs)
        if not hasdef:
            S.pc = bor(S.pc, band(pc0, bnot(allc)))
        S.pc = bor(S.pc, S.v.pop(bk))

    # ------------------------------------------------------------ loops
    def s_for(self, s):
        if s.get('init'):
            self.st(s['init'])
        self.loop(lambda: asbool(self.ev(s['c'])) if s.get('c') else TRUE, s['body'],
                  (lambda: self.ev(s['inc'])) if s.get('inc') else None, s)

    def s_while(self, s):
        def cond():
            if s.get('cv'):
                self.st(s['cv'])
            return asbool(self.ev(s['c']))
        self.loop(cond, s['body'], None, s)

    def s_do(self, s):
        self.loop(None, s['body'], None, s, post=lambda: asbool(self.ev(s['c'])))

    def s_rfor(self, s):
        t = s['range'].get('t', '')
        lv = self.lv(s['range'])
        fr = self.stack[-1]
        tm = tmpl(t)

        def bind(elv):
            d = s['var']
            if isref(d['t']):
                fr.alias[d['id']] = elv
            else:
                self.decl(d, self.rd(elv))
            for h in s.get('holds', []):
                self.decl(h)
        lv = self.simp(lv)
        if lv.op == 'ite':
            # iterate a snapshot of the selected container
            lv = self.temp(self.rd(lv))
        V = self.rd(lv)
        if V.op == 'vlit' and len(V.args) <= 8 and V.args is not None:
            # literal list: unroll
            S = self.S
            bk = self.nm('brk')
            S.v[bk] = FALSE
            for i in range(len(V.args)):
                ck = self.nm('cont')
                S.v[ck] = FALSE
                self.loopstack_ctl.append((bk, ck))
                bind(mkT('L.idx', (lv, c(i))))
                self.st(s['body'])
                self.loopstack_ctl.pop()
                S.pc = bor(S.pc, S.v.pop(ck))
            S.pc = bor(S.pc, S.v.pop(bk))
            return
        if tm in ('std::unordered_map', 'std::map', 'std::unordered_set', 'std::set'):
            M0 = V
            isset = tm.endswith('set')

            def pre(k):
                ke = lift(lambda m: mkT('mkey', (m, k)), [M0])
                if isset:
                    bind(self.temp(ke))
                else:
                    bind(lift(lambda x: mkT('L.mit', (lv, x)), [ke]))
            self.loop(None, s['body'], None, s, rng=(lift(lambda m: mkT('size', (m,)), [M0]), pre))
            return
        if tm in VECS or tm in STRS or V.op in ('tab', 'gen', 'cat') or tm.endswith(']') or '[' in t:
            def pre(k):
                bind(mkT('L.idx', (lv, k)))
            self.loop(None, s['body'], None, s, rng=(size(V), pre))
            return
        self.top('range-for over ' + tm, s)
        self.havoc_block(s)

    def havoc_block(self, s):
        for k in list(self.S.v):
            self.S.v[k] = ite(self.S.pc, top('loop'), self.S.v[k])

    def loop(self, cond, body, inc, s, rng=None, post=None):
        self.nloops += 1
        S0 = self.S
        outer_pc = S0.pc
        assume = band(S0.assume, S0.pc)
        fr = self.stack[-1]
        rk, rvk = 'ret%d' % fr.id, 'rv%d' % fr.id
        ret0, rv0 = S0.v.get(rk, FALSE), S0.v.get(rvk)
        ex0 = S0.v.get('exit', c('no'))
        base = S0.clone()
        base.v[rk] = FALSE
        base.v['exit'] = c('no')
        base.pc = TRUE
        base.assume = assume
        kname = self.nm('k')
        K = sym(kname)
        if rng is not None and rng[0].op == 'ite':
            rng = (restrict(rng[0], assume), rng[1])
        ind = {}       # var -> (init, step)
        carried = {}   # var -> (symname, isbool)
        bannedind = set()
        useStop = False
        stopn = self.nm('c!')
        STOP = asbool(sym(stopn))
        rec0, self.rec = self.rec, False
        result = None
        walked = []

        def b0(w):
            v = base.v[w]
            return spine(v, lambda x: restrict(x, assume)) if v.op in ('ite', 'cmp', 'store') and assume is not TRUE else v

        def start():
            st = base.clone()
            for w, (n, isb) in list(carried.items()):
                if not isb and not n.startswith('c!m') and ismap(base.v[w]):
                    n = self.nm('c!m')
                    carried[w] = (n, isb)
                st.v[w] = asbool(sym(n)) if isb else sym(n)
            for w, (i0, d) in ind.items():
                st.v[w] = self.affine(i0, mul(d, K))
            if useStop:
                st.pc = bnot(STOP)
            return st

        def iterate():
            st = start()
            self.S = st
            bk, ck = self.nm('brk'), self.nm('cont')
            st.v[bk] = FALSE
            st.v[ck] = FALSE
            cnd = TRUE
            ex = FALSE
            if cond is not None:
                nme = len(self.mapends)
                cnd = nobot(cond())
                walked[:] = self.mapends[nme:]
                pc = st.pc
                st.pc = band(pc, cnd)
                ex = band(pc, bnot(cnd))
            if rng is not None:
                rng[1](K)
            self.loopstack_ctl.append((bk, ck))
            self.loopstack.append((kname, s.get('l', 0)))
            try:
                self.st(body)
            finally:
                self.loopstack_ctl.pop()
                self.loopstack.pop()
            st.pc = bor(st.pc, st.v.pop(ck))
            if post is not None:
                pcv = post()
                st.v[bk] = bor(st.v[bk], band(st.pc, bnot(pcv)))
                st.pc = band(st.pc, pcv)
            pn = st.pc
            if inc is not None and st.pc is not FALSE:
                inc()
            b = st.v.pop(bk)
            self.S = S0
            return st, cnd, ex, b, pn

        try:
            for rounds in range(24):
                st2, cnd, ex, b, pn = iterate()
                # paths that continue
                live = bnot(STOP) if useStop else TRUE
                if cond is not None:
                    # continuing relative to the condition holding
                    pass
                stop_now = band(band(live, cnd if cond is not None else TRUE), bnot(pn))
                needStop = stop_now is not FALSE
                prev = start().v
                changed = []
                for w, v in st2.v.items():
                    if w in ind or w.startswith('tmp#') and w not in S0.v:
                        continue
                    ov = prev.get(w)
                    if ov is None:
                        if w[:2] in ('f:', 'm:'):
                            ov = mkT('arr0', (w[2:],))
                            base.v[w] = ov
                        elif w in ('exit', rk, rvk):
                            ov = {'exit': c('no'), rk: FALSE, rvk: mkT('undef', ('ret',))}[w]
                            base.v.setdefault(w, ov)
                        else:
                            continue
                    if v is not ov and w not in carried:
                        changed.append((w, v))
                # induction variables must still behave affinely
                demote = []
                for w, (i0, d) in ind.items():
                    want = self.affine(i0, mul(d, add(K, ONE)))
                    got = restrict(st2.v.get(w), pn) if pn is not FALSE else st2.v.get(w)
                    if got is not want:
                        demote.append(w)
                if demote:
                    for w in demote:
                        del ind[w]
                        bannedind.add(w)
                        carried[w] = (self.nm('c!'), False)
                    continue
                if needStop and not useStop:
                    useStop = True
                    for w, v in changed:
                        carried[w] = (self.nm('c!'), boolval(v) and boolval(base.v.get(w, FALSE)) and w not in ('exit',))
                    continue
                if changed:
                    for w, v in changed:
                        isb = boolval(v) and (boolval(base.v[w]))
                        carried[w] = (self.nm('c!'), isb)
                    continue
                # boolean carried whose step is not boolean
                fix = False
                for w, (n, isb) in list(carried.items()):
                    if isb and not boolval(st2.v[w]):
                        carried[w] = (n, False)
                        fix = True
                if fix:
                    continue
                prom = False
                for w, (n, isb) in list(carried.items()):
                    if isb or w in bannedind or w == rvk:
                        continue
                    got = restrict(st2.v[w], pn) if pn is not FALSE else st2.v[w]
                    if got.op == 'ite':
                        continue
                    d = self.stepof(got, sym(n))
                    if d is not None and not d.free & {kname} and not any(sym(m) is d for m, _ in carried.values()) and not (d.free & {m for m, _ in carried.values()}) and (d is not ZERO):
                        i0 = base.v[w]
                        i0 = restrict(i0, assume)
                        if i0.op == 'ite' and False:
                            continue
                        ind[w] = (i0, d)
                        del carried[w]
                        prom = True
                if prom:
                    continue
                break
            else:
                raise Unsupported('loop does not stabilise')
            # a container walked by iterators may only lose elements already passed
            if walked:
                for l, M0 in list(dict.fromkeys(walked)):
                    self.S = st2
                    now = self.rd(l)
                    self.S = S0
                    if now is not M0 and not self.shrinks(now, M0, {n for n, _ in carried.values()}):
                        raise Unsupported('elements are added to the container walked')
            # ---------------- trip count
            csyms = {n for n, _ in carried.values()} | {stopn}
            N = None
            extra = TRUE
            # containers whose length no round changes
            fixed = {}
            for w, (n, isb) in carried.items():
                if not isb:
                    z = mkT('size', (sym(n),))
                    v = st2.v[w]
                    if n in v.free and v.op not in ('sym', 'c', 'poly'):
                        sv = size(v)
                        d = sub(sv, z)
                        if sv is z:
                            fixed[z] = size(b0(w))
                        elif isnum(d) and d.args[0] > 0:
                            # grows by the same amount each round
                            fixed[z] = add(size(b0(w)), mul(d, K))

            def unsize(v):
                return mapterms(v, fixed) if fixed else v
            cnd = unsize(cnd)
            if rng is not None:
                N = rng[0]
            elif cond is not None:
                cr = restrict(cnd, bnot(STOP)) if useStop else cnd
                cr = restrict(cr, assume)
                N, extra = self.trip(cr, kname, csyms)
            if N is None:
                if cond is not None and not useStop and cnd is not TRUE:
                    useStop = True
                    extra = cnd
                elif cond is not None:
                    extra = cnd
            if N is not None and extra is not TRUE:
                useStop = True
            self.rec = rec0
            st2, cnd, ex, b, pn = iterate()
            if fixed:
                cnd, ex, b, pn = [unsize(v) for v in (cnd, ex, b, pn)]
                for w in carried:
                    st2.v[w] = unsize(st2.v[w])
        except Unsupported as u:
            self.S = S0
            self.rec = rec0
            self.notes.append('loop@%s: %s' % (s.get('l'), u))
            self.havoc_block(s)
            return
        finally:
            self.rec = rec0
            self.S = S0
        if N is None and not useStop:
            # no exit at all that we can see
            self.notes.append('loop@%s: no exit' % s.get('l'))
            self.havoc_block(s)
            return
        # steps
        steps = {}
        for w, (n, isb) in carried.items():
            steps[w] = st2.v[w]
        # within range the condition holds: assume it
        if N is not None and cond is not None:
            incond = cnd
            if extra is not TRUE:
                pass
            else:
                for w in steps:
                    steps[w] = spine(steps[w], lambda x: restrict(x, incond)) if incond is not TRUE else steps[w]
                pn = restrict(pn, incond)
                b = restrict(b, incond)
        inits = {w: b0(w) for w in carried}
        for w, (n, isb) in carried.items():
            if inits[w].op == 'mempty':
                steps[w] = freshkey(steps[w], sym(n), inits[w].args[0])
        bools = {w: isb for w, (n, isb) in carried.items()}
        names = {w: n for w, (n, isb) in carried.items()}
        if useStop:
            steps['!stop'] = bor(STOP, bnot(pn))
            steps['!gone'] = bor(asbool(sym(stopn + 'g')), band(bnot(STOP), band(bnot(pn), band(bnot(b), bnot(ex)))))
            inits['!stop'] = FALSE
            inits['!gone'] = FALSE
            bools['!stop'] = bools['!gone'] = True
            names['!stop'] = stopn
            names['!gone'] = stopn + 'g'
        if N is None:
            # where the variables that advance evenly stood when the loop ended
            for w, (i0, d) in ind.items():
                if w in S0.v and w in st2.v and w.startswith(('v', '!', 'o:', 'f:')) and st2.v[w] is not i0:
                    z = '!x' + w
                    names[z], inits[z], steps[z], bools[z] = self.nm('c!'), i0, st2.v[w], False
        fin, dr, N2 = self.summarise(N, kname, names, inits, steps, bools, s)
        # ---------------- write back
        S = S0
        gone = fin.pop('!gone', FALSE)
        stop = fin.pop('!stop', FALSE)
        last = {w[2:]: fin.pop(w) for w in list(fin) if w.startswith('!x')}
        for w, v in fin.items():
            if w == rk:
                S.v[rk] = bor(ret0, band(outer_pc, v))
            elif w == rvk:
                old = rv0 if rv0 is not None else mkT('undef', ('ret',))
                S.v[rvk] = ite(band(outer_pc, fin.get(rk, FALSE)), v, old)
            elif w == 'exit':
                S.v['exit'] = ite(outer_pc, v, ex0)
            else:
                old = S.v.get(w)
                if old is None:
                    old = mkT('arr0', (w[2:],)) if w[:2] in ('f:', 'm:') else mkT('undef', ('local',))
                S.v[w] = ite(outer_pc, v, old)
        for w, (i0, d) in ind.items():
            if N is not None and not useStop:
                v = self.affine(i0, mul(d, N))
            elif N is not None:
                stopk = self._stopk
                v = self.affine(i0, mul(d, stopk)) if stopk is not None else top('ind after break')
            else:
                v = last.get(w)
                if v is None:
                    v = top('induction after open loop')
            old = S.v.get(w)
            S.v[w] = ite(outer_pc, v, old)
        S.pc = band(outer_pc, bnot(gone))

    def affine(self, i0, off):
        def f(x, o):
            if x.op in ('it', 'rit'):
                return mkT(x.op, (x.args[0], add(x.args[1], o)))
            if x.op == 'ptr' and x.args[0].op == 'L.idx':
                return mkT('ptr', (mkT('L.idx', (x.args[0].args[0], add(x.args[0].args[1], o))),))
            if x.op == 'nit':
                return mkT('nit', (x.args[0], add(x.args[1], o), x.args[2]))
            if x.op in ('advln', 'ifs', 'iss'):
                return mkT(x.op, (x.args[0], add(x.args[1], o)))
            return add(x, o)
        return lift(f, [i0, off])

    def shrinks(self, v, M0, cs):
        """v is M0, or the running state, less some of the elements walked"""
        def rooted(q):
            while q.op in ('elem', 'fst', 'snd'):
                q = q.args[0]
            return q.op == 'sym' and q.args[0] in cs
        for q in leaves(v):
            while q is not M0 and not rooted(q):
                if q.op in ('erase', 'store') and q.args[1].op == 'mkey':
                    q = q.args[0]
                elif q.op == 'mtab':
                    q = q.args[0]
                elif q.op == 'elem' and q.args[0].op in ('store', 'erase'):
                    q = mkT('elem', (q.args[0].args[0], q.args[1]))
                else:
                    return False
        return True

    def stepof(self, got, s):
        if got.op == 'itadd' and got.args[0] is s:
            return got.args[1]
        if got.op == 'advln' and got.args[0] is s:
            return got.args[1]
        p = poly_of(got)
        if p.get(((s, 1),)) == 1:
            rest = {m: cf for m, cf in p.items() if m != ((s, 1),)}
            r = from_poly(rest)
            if s.args[0] not in r.free:
                return r
        return None

    def trip(self, cr, kname, csyms):
        """(N, extra condition) with the loop continuing iff k<N and extra"""
        if cr is TRUE:
            return None, TRUE
        if cr is FALSE:
            return ZERO, TRUE
        ka = [a for a in set(atoms(cr)) if kname in a.free and a.op in ('ac', 'ab') and not (a.free & csyms)]
        cand = []
        for a in ka:
            n = self.tripatom(a, kname)
            if n is not None:
                cand.append((a, n))
        # invariant alternatives
        inv = [a for a in set(atoms(cr)) if not (a.free & (csyms | {kname}))]
        if len(cand) == 1:
            a, (n, truth) = cand[0]
            side = [cofactor(cr, a, i) for i in range(dom(a))]
            if a.op == 'ac' and a.args[2] == 'i' and side[1] is not FALSE and side[1] is side[0 if truth[0] else 2] and side[2 if truth[0] else 0] is FALSE:
                # up to and including the bound
                return add(n, ONE), side[1]
            if a.op == 'ac' and all(nonneg(x) for x in leaves(n)):
                # counting up from 0 in steps of one never passes n without meeting it
                side[2 if truth[0] else 0] = FALSE
            others = [side[i] for i in range(dom(a)) if not truth[i]]
            mine = [side[i] for i in range(dom(a)) if truth[i]]
            if all(o is FALSE for o in others) and all(m is mine[0] for m in mine):
                return n, mine[0]
        if inv and not (cr.free & csyms):
            a = min(inv, key=lambda x: x.id)
            subs = [self.trip(cofactor(cr, a, i), kname, csyms) for i in range(dom(a))]
            if all(x[0] is not None and x[1] is TRUE for x in subs):
                return mkord(a, [x[0] for x in subs]), TRUE
        return None, TRUE

    def tripatom(self, a, kname):
        K = sym(kname)
        if a.op == 'ab':
            t = a.args[0]
            if t.op == 'mapend' and t.args[1] is K:
                return (size(t.args[2]), (False, True))
            if t.op == 'lnok' and t.args[1] is K:
                return (mkT('nlines', (t.args[0],)), (True, False))
            return None
        q, k0, fl = a.args
        p = poly_of(q)
        sk = p.get(((K, 1),))
        if sk not in (1, -1):
            return None
        rest = from_poly({m: cf for m, cf in p.items() if m != ((K, 1),)})
        if kname in rest.free:
            return None
        # atom compares sk*k + rest with k0
        if sk == 1:
            n = sub(k0, rest)       # k < n  <-> '<'
            return ('asc', n)[1:] and self._tp(a, n, 1)
        n = sub(rest, k0)           # rest - k > k0 <-> k < rest-k0
        return self._tp(a, n, -1)

    def _tp(self, a, n, sgn):
        return (n, (True, False, False)) if sgn == 1 else (n, (False, False, True))

    # ------------------------------------------------------------ summaries
    _stopk = None

    def summarise(self, N, kname, names, inits, steps, bools, s):
        K = sym(kname)
        self._stopk = None
        dr = 'asc'
        if N is not None:
            # canonical direction
            signs = set()
            for t in set(x for v in steps.values() for x in subterms(v)):
                ix = None
                if t.op in ('elem', 'L.idx') and kname in t.args[1].free and kname not in t.args[0].free:
                    ix = t.args[1]
                if ix is not None:
                    cf = poly_of(ix).get(((K, 1),))
                    if cf is not None:
                        signs.add(1 if cf > 0 else -1)
            if signs == {-1}:
                m = {K: sub(sub(N, ONE), K)}
                if N.op == 'ite':
                    m = None
                if m:
                    steps = {w: subst(v, m) for w, v in steps.items()}
                    dr = 'desc'
        allsyms = {n: w for w, n in names.items()}
        if N is not None:
            steps = {w: spine(v, lambda x: boundfact(x, kname, N)) for w, v in steps.items()}
        self._mine = set(names.values())
        if N is None and '!stop' in names:
            # the recurrence halts as soon as stop holds: below it is known false
            sa = asbool(sym(names['!stop'])).args[0]
            steps = {w: cofactor(v, sa, 1) for w, v in steps.items()}
        if N is not None and N.op == 'size':
            steps = {w: endfact(v, kname, N.args[0]) for w, v in steps.items()}
        cells = []
        for _ in range(4):
            steps, more = self.scalarise(N, kname, names, inits, steps, bools)
            if not more:
                break
            cells.append(more)
        allsyms = {n: w for w, n in names.items()}
        deps = {w: {allsyms[f] for f in v.free if f in allsyms} for w, v in steps.items()}
        order = scc(deps)
        fin = {}
        pre = {}
        for comp in order:
            ws = sorted(comp)
            stp = {w: subst(steps[w], pre) for w in ws}
            fr = frame(kname, [names[w] for w in ws], [inits[w] for w in ws], [stp[w] for w in ws])
            stp = dict(zip(ws, fr))
            single = len(ws) == 1
            done = False
            def summ(N):
                w = ws[0]
                x = sym(names[w])
                stopsym = names.get('!stop')
                return self.recognise(N, dr, kname, x, inits[w], stp[w], bools[w], steps[w],
                                      stopsym if w != '!stop' else None, steps.get('!stop'))
            if single:
                w = ws[0]
                r = summ(N)
                if r is not None:
                    fin[w] = r
                    done = True
            if not done:
                cs = [names[w] for w in ws]
                outs = mk_rec(N if N is not None else c('open'), dr, (kname,) + tuple(cs), [inits[w] for w in ws], [stp[w] for w in ws]) \
                    if N is None or N.op != 'ite' else None
                if outs is None:
                    def bld(i):
                        return lift(lambda n: mk_rec(n, dr, (kname,) + tuple(cs), [inits[w] for w in ws], [stp[w] for w in ws])[i], [N])
                    outs = [bld(i) for i in range(len(ws))]
                for w, o in zip(ws, outs):
                    fin[w] = asbool(o) if bools[w] else o
            for w in ws:
                if stp[w].free & {names[w]} or not single or kname in stp[w].free or True:
                    p = mkT('pre', (fin[w] if not bools[w] else fin[w], K, dr)) if fin[w] is not inits[w] else inits[w]
                    if bools[w]:
                        p = asbool(mkT('pre', (fin[w], K, dr)))
                    if isc(fin[w]) and N is not None and not isnum(N):
                        p = fin[w]
                    elif single and done and dr == 'asc' and N is not None:
                        q = summ(K)
                        if q is not None:
                            p = asbool(q) if bools[w] else q
                    pre[sym(names[w])] = p
        for more in reversed(cells):
            for w, (base, kk, isb) in more.items():
                fin[w] = store(base, kk, fin[w])
        if '!stop' in fin and N is not None:
            st = steps['!stop']
            b0 = cofactor(st, asbool(sym(names['!stop'])).args[0], 1)
            if not (b0.free & set(names.values())):
                self._stopk = mk_first(N, dr, kname, b0, K if dr == 'asc' else sub(sub(N, ONE), K), N)
        return fin, dr, N

    def scalarise(self, N, kname, names, inits, steps, bools):
        """a carried array only ever written at one loop-invariant key becomes a scalar"""
        cells = {}
        mine = set(names.values()) | {kname}
        for w in list(steps):
            if w.startswith('!') or bools[w]:
                continue
            x = sym(names[w])
            keys = set()
            ok = True
            for l in leaves(steps[w]):
                while l.op == 'store':
                    keys.add(l.args[1])
                    l = l.args[0]
                ok = ok and l is x
            if not ok or len(keys) != 1:
                continue
            kk = keys.pop()
            if kk.free & mine:
                continue
            # every other mention of x is a read at kk or at a key known different
            cellname = names[w] + 'v'
            cell = sym(cellname)
            x0 = inits[w]
            bad = []
            isb = bools_of_cell(x0, kk)

            def go(t, memo):
                r = memo.get(t.id)
                if r is not None:
                    return r
                if t is x:
                    bad.append(t)
                    return t
                if names[w] not in t.free:
                    return t
                if t.op == 'elem' and t.args[0] is x:
                    k2 = go(t.args[1], memo)
                    if k2 is kk:
                        r = cell
                    elif distinct(k2, kk):
                        r = sel(x0, k2)
                    else:
                        bad.append(t)
                        r = t
                elif t.op == 'has' and t.args[0] is x:
                    bad.append(t)
                    r = t
                else:
                    r = TT.rebuild(t, lambda y: go(y, memo))
                memo[t.id] = r
                return r
            memo = {}

            def content(l):
                v = cell
                for l2 in [l]:
                    while l2.op == 'store':
                        return l2.args[2]
                return v
            new = {}
            # (the value stored last at kk; nested stores to the same key were merged by store())
            cv = lift(content, [steps[w]])
            for w2, v2 in steps.items():
                if w2 == w:
                    continue
                new[w2] = go(v2, memo)
            ncv = go(cv, memo)
            if bad or any(names[w] in v.free for v in list(new.values()) + [ncv]):
                continue
            i0 = sel(x0, kk)
            isb = boolval(ncv_blind(ncv, cell)) and boolval(i0)
            if isb:
                bc = {cell: asbool(cell)}
                # a boolean cell: reads become choices
                new = {a: boolify(b, cell) for a, b in new.items()}
                ncv = boolify(ncv, cell)
            if i0.op == 'mempty':
                ncv = freshkey(ncv, cell, i0.args[0])
            steps = dict(new)
            steps[w] = ncv
            inits[w] = i0
            bools[w] = isb
            names[w] = cellname
            self._mine.add(cellname)
            cells[w] = (x0, kk, isb)
        return steps, cells

    def recognise(self, N, dr, kname, x, x0, s, isb, rawstep, stopsym, stopstep):
        """closed form of x after N iterations of x := s(x, k), or None"""
        xn = x.args[0]
        K = sym(kname)
        if s is x or (isb and s is asbool(x)):
            return x0
        if N is None:
            return None
        if stopsym is not None and stopsym in rawstep.free and stopstep is not None:
            sa = mkT('ab', (sym(stopsym),))
            frozen = cofactor(rawstep, sa, 0)
            s_f = cofactor(rawstep, sa, 1)
            b = cofactor(stopstep, sa, 1)
            okfrozen = frozen is x or (isb and frozen is asbool(x))
            others = (s_f.free | b.free) & self._mine - {xn}
            if okfrozen and not others and xn not in b.free and not (b.free & {stopsym}):
                # value changes only when the loop stops?
                unch = restrict_eq(s_f, asbool(x) if isb else x, bnot(b))
                if unch:
                    v = subst(s_f, {x: x0}) if not isb else subst_bool(s_f, x, x0)
                    return mk_first(N, dr, kname, b, v, x0)
            return None
        if (s.free & self._mine) - {xn}:
            return None
        if isb:
            xa = mkT('ab', (x,))
            sT = cofactor(s, xa, 0)
            sF = cofactor(s, xa, 1)
            if xn in sT.free or xn in sF.free:
                return None
            if sT is TRUE:
                return bor(mk_exists(N, kname, sF), x0)
            if sF is FALSE:
                return band(bnot(mk_exists(N, kname, bnot(sT))), x0)
            if sT is sF:
                return None
            return None
        if xn not in s.free:
            last = sub(N, ONE) if dr == 'asc' else ZERO
            return ite(compare('>', N, ZERO), subst(s, {K: last}), x0)
        lv = list(leaves(s))
        at_ok = all(xn not in a.free for a in atoms(s))
        if at_ok:
            # unchanged or replaced
            if all(l is x or xn not in l.free for l in lv):
                u = lift(lambda l: FALSE if l is x else TRUE, [s])
                v = restrict(s, u)
                return mk_first(N, 'desc' if dr == 'asc' else 'asc', kname, u, v, x0)
            # sum
            def addpart(l):
                p = poly_of(l)
                if p.get(((x, 1),)) != 1:
                    return None
                r = from_poly({m: cf for m, cf in p.items() if m != ((x, 1),)})
                return None if xn in r.free else r
            if all(addpart(l) is not None for l in lv):
                g = lift(addpart, [s])
                return add(x0, mk_sum(N, kname, g))

            def mulpart(l):
                r = div(l, x)
                return None if xn in r.free else r
            if all((l.op == 'poly' or l is x) and len(poly_of(l)) == 1 and mulpart(l) is not None for l in lv):
                g = lift(mulpart, [s])
                return mul(x0, mk_sum(N, kname, g, 'prod'))

            def catpart(l):
                if l is x:
                    return mkT('vlit', ())
                if l.op == 'cat' and l.args[0] is x and not any(xn in y.free for y in l.args[1:]):
                    return cat(*l.args[1:])
                return None
            if all(catpart(l) is not None for l in lv):
                g = lift(catpart, [s])
                return cat(x0, mk_gen(N, dr, kname, g))

            def acpart(l):
                if l is x:
                    return 'id'
                if l.op.startswith('ac:') and x in l.args[1:] and sum(1 for y in l.args[1:] if xn in y.free) == 1:
                    return l.op
                return None
            ops = {acpart(l) for l in lv}
            if None not in ops and len(ops - {'id'}) == 1:
                op = (ops - {'id'}).pop()

                def body(l):
                    if l is x:
                        return mkT('skip', ())
                    r = [y for y in l.args[1:] if y is not x]
                    return r[0] if len(r) == 1 else mkT(op, (l.args[0],) + tuple(r))
                return mk_fold(op, N, dr, kname, lift(body, [s]), x0)
            # array update
            if len(lv) == 1 and lv[0].op == 'store':
                l = lv[0]
                if l.args[0] is x:
                    _, kk, vv = l.args
                    cur = mkT('elem', (x, kk))
                    vo = subst(vv, {cur: OLD}) if xn in vv.free else vv
                    if xn not in kk.free and xn not in vo.free:
                        return mk_lst(x0, N, dr, kname, kk, vo)
            # conditional update where some leaves are untouched
            if all(l is x or (l.op == 'store' and l.args[0] is x) for l in lv):
                st = [l for l in lv if l is not x]
                keys = {l.args[1] for l in st}
                if len(keys) == 1:
                    kk = keys.pop()
                    vv = lift(lambda l: OLD if l is x else l.args[2], [s])
                    cur = mkT('elem', (x, kk))
                    vo = subst(vv, {cur: OLD}) if xn in vv.free else vv
                    if xn not in kk.free and xn not in vo.free:
                        return mk_lst(x0, N, dr, kname, kk, vo)
        # running maximum
        for intg in (True, False):
            gs = [l for l in lv if l is not x]
            if len(gs) == 1 and xn not in gs[0].free:
                g = gs[0]
                for op, nm in (('>', 'max'), ('>=', 'max'), ('<', 'min'), ('<=', 'min')):
                    if s is ite(compare(op, g, x, intg), g, x):
                        return mk_fold(nm if intg else nm + 'r', N, dr, kname, g, x0)
        return None


def ncv_blind(v, cell):
    return lift(lambda l: TRUE if l is cell else l, [v])


def boolify(v, cell):
    return lift(lambda l: asbool(cell) if l is cell else l, [v])


def bools_of_cell(x0, kk):
    return boolval(sel(x0, kk))


def subst_bool(s, x, x0):
    xa = mkT('ab', (x,))
    return ite(x0, cofactor(s, xa, 0), cofactor(s, xa, 1))


def restrict_eq(f, g, cnd):
    """f == g wherever cnd"""
    return ite(cnd, f, g) is g


def L_mk(op, *a):
    return lift(lambda *xs: mkT(op, xs), list(a))


def app_box(v):
    return lift(lambda x: mkT('box', (x,)), [v]) if v.op == 'ite' and False else mkT('box', (v,))


def subterms(v):
    seen = set()
    out = []
    stk = [v]
    while stk:
        t = stk.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        out.append(t)
        col = []
        TT._collect(t.args, col)
        stk.extend(col)
    return out


def scc(deps):
    """strongly connected components in dependency order"""
    idx, low, st, on, out, ctr = {}, {}, [], set(), [], [0]

    def go(v):
        idx[v] = low[v] = ctr[0]
        ctr[0] += 1
        st.append(v)
        on.add(v)
        for w in sorted(deps[v]):
            if w not in deps:
                continue
            if w not in idx:
                go(w)
                low[v] = min(low[v], low[w])
            elif w in on:
                low[v] = min(low[v], idx[w])
        if low[v] == idx[v]:
            comp = []
            while True:
                w = st.pop()
                on.discard(w)
                comp.append(w)
                if w == v:
                    break
            out.append(comp)
    for v in sorted(deps):
        if v not in idx:
            go(v)
    return out
