"""Structural rules over the resolved program."""
import re


class Vanished(Exception):
    pass


RULES = {}


def rule(f):
    RULES[f.__name__] = f
    return f


def lift_bool(t):
    """comparison leaves become decisions"""
    import terms as TT
    return TT.lift(lambda x: x if x.op == 'c' else TT.asbool(x), [t])


def finding(key, where, msg, detail=None):
    return dict(key=key, where=where, msg=msg, detail=detail)


@rule
def multiply_memo(P):
    """results of a memoised recursion: stored under the arguments of the call, equal to the value
    returned, looked up under the same key, and the key tells different argument pairs apart"""
    from equiv import analyze, memoclasses, Diff, DEF, ite, show, showpath, mkT, sym, subterms, TRUE, FALSE, SAME
    import terms as TT
    out, sites = [], []
    mc = memoclasses(P)
    n = 0
    sigs = {}
    for cname, (lk, up) in mc.items():
        sigs[lk.sig] = sigs[up.sig] = cname
        rl = analyze(P, lk.sig, fn=lk, opts=dict(memo=False))
        ru = analyze(P, up.sig, fn=up, opts=dict(memo=False))
        n += 1
        sites.append('%s lookup/update key' % cname)
        # where the found flag and the value come from
        fl = [v for k, v in rl.outs.items()]
        if len(fl) != 1:
            continue
        keyl = [t for t in subterms(fl[0]) if t.op == 'has']
        stores = []
        for k, v in ru.fields.items():
            stores += [t for t in subterms(v) if t.op == 'store']
        np_ = [i for i, p in enumerate(up.params) if 'PsddNode' in p['t'] and 'pair' not in p['t']]
        val = [i for i, p in enumerate(up.params) if i not in np_]
        if len(keyl) != 1 or not stores or len(val) != 1:
            continue
        inner = [s for s in stores if s.args[2].op == 'sym' and s.args[2].args[0].endswith('p%d' % val[0])]
        if not inner:
            if not any(t.op == 'sym' and t.args[0].endswith('p%d' % val[0]) for s in stores for t in subterms(s)):
                out.append(finding('memo:%s:value' % cname, up.where(), 'the stored result is not the one handed to the cache'))
            continue
        inner = inner[0]
        wr = (inner.args[0], inner.args[1])
        rd = (keyl[0].args[0], keyl[0].args[1])
        for a, b, what in ((wr[1], rd[1], 'key'), (wr[0], rd[0], 'bucket')):
            d = Diff().run(a, b)
            if d[0] == DEF:
                out.append(finding('memo:%s:%s' % (cname, what), lk.where(), 'results are looked up under another %s than they are stored under' % what,
                                   dict(when=showpath(d[1]), reference=show(a), code=show(b))))
        for i in np_:
            p = [t for t in subterms(wr[1]) if t.op == 'sym' and t.args[0] == 'nn:p%d' % i]
            ok = any(t.op == 'pair' and any(x.op == 'sym' and x.args[0] == 'nn:p%d' % i for x in t.args) for t in subterms(wr[1])) or \
                any(t.op in ('elem', 'fld:PsddNode::node_index_') and 'node_index_' in show(t) and ('p%d' % i) in show(t) for t in subterms(wr[1])) or \
                (wr[1].op == 'sym' and wr[1].args[0] == 'nn:p%d' % i)
            if not ok and not any(t.op.startswith(('ext:', 'top')) for t in subterms(wr[1])):
                out.append(finding('memo:%s:key%d' % (cname, i), up.where(), 'the key does not tell different arguments %d apart' % i, show(wr[1])))
        # hash and equality functors of the table
        for s, fs in P.bysig.items():
            f = fs[0]
            if 'operator()' in f.name and f.cls and len(f.params) == 2 and all('pair<PsddNode *, PsddNode *>' in p['t'] for p in f.params):
                r = analyze(P, f.sig, fn=f)
                n += 1
                sites.append('%s equality of keys' % f.cls)
                a, b = sym('p0'), sym('p1')
                for g in (TT.fst, TT.snd):
                    eqt = TT.mkT('eq', tuple(sorted((g(a), g(b)), key=lambda t: t.id)))
                    # the result must be false whenever this component differs
                    res = lift_bool(r.ret)
                    at = [x for x in TT.atoms(res) if x.op == 'ab' and x.args[0].op == 'eq' and set(map(id, x.args[0].args)) == {id(g(a)), id(g(b))}]
                    if not at:
                        if all(x.op == 'ab' and x.args[0].op == 'eq' for x in TT.atoms(res)):
                            out.append(finding('memo:%s:eq' % f.cls, f.where(), 'two keys that differ in one component are taken for equal', show(res)))
                        continue
                    if TT.band(res, TT.mk(at[0], [FALSE, TRUE])) is not FALSE:
                        out.append(finding('memo:%s:eq' % f.cls, f.where(), 'two keys that differ in one component are taken for equal', show(res)))
    # stores into the table
    for s, fs in P.bysig.items():
        f = fs[0]
        if not any(any(c.split('::')[-1] in p['t'] for c in mc) for p in f.params):
            continue
        if f.cls in mc:
            continue
        r = analyze(P, f.sig, fn=f)
        nodes = [i for i, p in enumerate(f.params) if p['t'] == 'PsddNode *']
        for ev in r.events:
            if ev[0] not in ('update', 'lookup'):
                continue
            n += 1
            sites.append('%s at line %s of %s' % (ev[0], ev[3], f.file.split('/')[-1]))
            ks = ev[2][:len(nodes)]
            want = [sym('nn:p%d' % i) for i in nodes]
            if any(k is not w for k, w in zip(ks, want)):
                if all(k.op == 'sym' for k in ks) and ev[0] == 'update':
                    out.append(finding('memo:%s:args:%s' % (f.name, ev[0]), '%s:%d %s' % (f.file, ev[3], f.name),
                                       'a result is stored under other nodes than the ones it was computed from', ', '.join(show(k) for k in ks)))
                continue
            if ev[0] == 'update' and ev[1].taint == 0 if hasattr(ev[1], 'taint') else ev[0] == 'update':
                v = ev[2][len(nodes)]
                d = Diff().run(ite(ev[1], r.ret, mkT('c', (0,)) if False else FALSE), ite(ev[1], v, FALSE))
                if d[0] == DEF:
                    out.append(finding('memo:%s:value:%s' % (f.name, len(out)), '%s:%d %s' % (f.file, ev[3], f.name),
                                       'the result stored in the memo table is not the result returned', dict(when=showpath(d[1]), reference=show(d[2])[:400], code=show(d[3])[:400])))
    return dict(rule=multiply_memo.__doc__, instances=n, sites=sites, findings=out)


def _tables(P):
    """(class record, GetUniqueNode, {field: type}, [comparator class])"""
    out = []
    for f in P.byname.get('GetUniqueNode', []) + [g for n, l in P.byname.items() if n.endswith('::GetUniqueNode') for g in l]:
        if f.cls and any(o.startswith('PsddUniqueTable::GetUniqueNode') for o in f.over):
            r = P.recs.get(f.cls)
            if r is None:
                continue
            fs = {x['n']: x['t'] for x in r['fields'] if 'PsddNode *' in x['t']}
            out.append((r, f, fs))
    if not out:
        raise Vanished('no implementation of PsddUniqueTable::GetUniqueNode')
    return out


def _kinds(P, f, fs):
    """per kind of node: (table field term, key term), from the membership test of GetUniqueNode"""
    from equiv import analyze, subterms, mkT, sym
    import terms as TT
    r = analyze(P, f.sig, fn=f)
    ak = [t for t in subterms(r.ret) if t.op == 'ak' and t.args[0] is sym('nn:p0')]
    use = {}
    for i, K in enumerate('LTD'):
        v = TT.cofactor(r.ret, ak[0], i) if ak else r.ret
        # what is asked about an entry: whether it is there, or whether a node is in it
        use[K] = {(t.args[0], t.args[1]) for u in subterms(v) if u.op == 'has' for t in (u, u.args[0]) if t.op in ('has', 'elem') and
                  t.args[0].op.startswith('fld:') and t.args[0].op[4:] in fs}
    return r, (ak[0] if ak else None), use


def given(t, atom, i):
    """t where the atom has its i-th outcome, also inside kept structure"""
    import terms as TT
    if atom is None:
        return t
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is None:
            r = memo[x.id] = go(x.args[1 + i]) if x.op == 'ite' and x.args[0] is atom else TT.rebuild(x, go)
        return r
    return go(t)


CONTENT = ('vtree_node_', 'flag_index_', 'literal_', 'variable_index_', 'true_parameter_', 'false_parameter_', 'primes_', 'subs_', 'parameters_')


@rule
def unique_order(P):
    """the comparison of a unique table is a strict order under which two nodes are equivalent exactly when their flag, and their literal, or
    variable and parameters, or element lists, are equal"""
    from equiv import analyze, show
    import orders
    out, sites, und = [], [], []
    n = 0
    for rec, f, fs in _tables(P):
        r, ak, use = _kinds(P, f, fs)
        shared = {}
        for K, hs in use.items():
            for t, k in hs:
                shared.setdefault(t.op, set()).add(K)
        cmps = {}
        for fn_, ty in fs.items():
            m = re.search(r'set<PsddNode \*, ([\w:() ]+?)>', ty)
            if m:
                cmps.setdefault(m.group(1).replace('(anonymous namespace)', '(anon)'), set()).add('fld:' + fn_)
            else:
                und.append('%s is not an ordered set with its own comparison' % fn_)
        for cn, flds in cmps.items():
            g = [x for s, l in P.bysig.items() for x in l if x.cls == cn and s.startswith(cn + '::operator()(') and len(x.params) == 2]
            if len(g) != 1:
                und.append('comparison %s not found' % cn)
                continue
            g = g[0]
            groups = [ks for o, ks in shared.items() if o in flds]
            if not groups:
                und.append('no table of %s is looked up' % cn)
                continue
            try:
                t = analyze(P, g.sig, fn=g).ret
                cnt, bad = orders.checkorder(t, 'LTD', groups)
            except orders.Unknown as e:
                und.append('%s: %s' % (cn, e))
                continue
            n += cnt
            sites.append('%s %s over %s' % (g.where(), g.sig, ', '.join('/'.join(sorted(x)) for x in groups)))
            for b in bad:
                out.append(finding('order:%s' % b[0], '%s %s' % (g.where(), g.sig), b[0], '; '.join(map(repr, b[1:]))))
    return dict(rule=unique_order.__doc__, instances=n, sites=sites, findings=out, undecided=und)


@rule
def unique_find(P):
    """a lookup returns the stored node exactly when an equivalent one is stored under the node's key and otherwise stores and returns the given
    node; everything else in the table stays, the index counter moves exactly when a node is added, and the key depends on the node's content only"""
    from equiv import analyze, subterms, mkT, sym, show, showpath, Diff, DEF, SAME, ite
    import terms as TT
    out, sites, und = [], [], []
    n = 0
    p = sym('nn:p0')
    for rec, f, fs in _tables(P):
        r, ak, use = _kinds(P, f, fs)
        for i, K in enumerate('LTD'):
            hs = use[K]
            name = {'L': 'literal', 'T': 'top', 'D': 'decision'}[K]
            n += 1
            sites.append('%s nodes' % name)
            if not hs:
                v = TT.cofactor(r.ret, ak, i) if ak is not None else r.ret
                if v is p:
                    out.append(finding('find:%s:never' % name, '%s %s' % (f.where(), f.sig), 'a %s node is returned without looking for an equal one' % name))
                else:
                    und.append('%s nodes: no lookup found' % name)
                continue
            if len(hs) != 1:
                und.append('%s nodes: %d lookups' % (name, len(hs)))
                continue
            (T, key), = hs
            bad = [t for t in subterms(key) if t.op.startswith('fld:') and t.op.split('::')[-1] not in CONTENT]
            if bad:
                out.append(finding('find:%s:key' % name, f.where(), 'the table key of a %s node depends on more than its content' % name, show(key)))
                continue
            S = TT.sel(T, key)
            hT = TT.asbool(TT.has(T, key))
            hS = TT.asbool(TT.has(S, p))
            found = TT.band(hT, hS)

            def absent(v):
                # an entry that is not there holds no node
                w = v
                for t in {t for t in subterms(v) if t.op == 'ab' and t.args[0].op == 'has' and t.args[0].args[0] is S}:
                    w = given(w, t, 1)
                return TT.ite(hT, v, w) if w is not v else v

            def go(what, want, got, cond=TT.TRUE):
                nonlocal n
                n += 1
                want, got = [absent(given(TT.ite(cond, given(x, ak, i), TT.FALSE), ak, i)) for x in (want, got)]
                d = Diff().run(want, got)
                if d[0] == DEF:
                    out.append(finding('find:%s:%s' % (name, what), '%s %s' % (f.where(), f.sig), 'looking up a %s node: wrong %s' % (name, what),
                                       dict(when=showpath(d[1]), reference=show(d[2])[:400], code=show(d[3])[:400])))
                elif d[0] != SAME:
                    und.append('%s nodes: %s' % (name, what))
            go('returned node', ite(found, TT.sel(S, p), p), r.ret)
            for ev in r.events:
                if ev[0] == 'delete':
                    go('freed node', TT.FALSE, TT.eq(ev[2], r.ret), given(TT.band(ev[1], TT.bnot(TT.eq(p, TT.sel(S, p)))), ak, i))
            for k, v in r.outs.items():
                if k.endswith('1'):
                    base = [t for t in subterms(v) if t.op == 'sym' and t.args[0] == '*p1']
                    if base:
                        go('index counter', ite(found, base[0], TT.add(base[0], TT.ONE)), v)
            for k, v in r.fields.items():
                fk = k[2:]
                if fk not in fs:
                    continue
                base = mkT('arr0', (fk,))
                F = mkT('fld:' + fk, (sym('nn:this'),))
                if 'fld:' + fk == T.op:
                    new = ite(found, T, TT.store(T, key, ite(hT, TT.store(S, p, p), TT.store(mkT('mempty', (TT.FALSE,)), p, p))))
                    cur = TT.sel(v, sym('nn:this'))
                    # compared through what a later lookup sees
                    S2 = TT.sel(cur, key)
                    go('stored node', ite(found, TT.sel(S, p), p), TT.sel(S2, p))
                    go('membership afterwards', TT.TRUE, TT.band(TT.asbool(TT.has(cur, key)), TT.asbool(TT.has(S2, p))))
                    o = sym('nn:other')
                    go('membership of other nodes', TT.band(hT, TT.asbool(TT.has(S, o))), TT.asbool(TT.has(given(S2, ak, i), o)), TT.bnot(TT.eq(p, o)))
                    ok = sym('u:otherkey')
                    go('other entries', TT.sel(T, ok), TT.sel(cur, ok), TT.bnot(TT.eq(key, ok)))
                    go('presence of other entries', TT.asbool(TT.has(T, ok)), TT.asbool(TT.has(cur, ok)), TT.bnot(TT.eq(key, ok)))
                else:
                    go('table %s' % fk.split('::')[-1], F, TT.sel(v, sym('nn:this')))
    return dict(rule=unique_find.__doc__, instances=n, sites=sites, findings=out, undecided=und)


@rule
def gc_sweep(P):
    """a sweep keeps a stored node, in every table, exactly when it is reachable from the given roots (or carries one of the given flags)"""
    from equiv import analyze, subterms, mkT, sym, show, showpath, Diff, DEF, SAME
    import terms as TT
    out, sites, und = [], [], []
    n = 0
    todo = []
    p0 = sym('p0')
    for rec, gf, fs in _tables(P):
        for meth, fld in (('DeleteUnusedPsddNodes', 'node_index_'), ('DeletePsddNodesWithoutFlagIndexes', 'flag_index_')):
            l = [g for k, v in P.overriders.items() if k.startswith('PsddUniqueTable::%s(' % meth) for g in v if g.cls == rec['name']]
            if len(l) != 1:
                raise Vanished('%s::%s' % (rec['name'], meth))
            todo.append((rec, fs, meth, fld, l[0], sym('nn:this')))
        mg = [g for g in P.byname.get('PsddManager::DeleteUnusedPsddNodes', [])]
        if not mg:
            raise Vanished('PsddManager::DeleteUnusedPsddNodes')
        ut = [x['n'] for x in P.recs['PsddManager']['fields'] if 'PsddUniqueTable *' in x['t']]
        if len(ut) == 1:
            todo.append((rec, fs, 'DeleteUnusedPsddNodes', 'node_index_', mg[0], mkT('fld:' + ut[0], (sym('nn:this'),))))
        else:
            und.append('the unique table of PsddManager was not found')
    for rec, fs, meth, fld, f, owner in todo:
        r = analyze(P, f.sig, fn=f)
        x, k = sym('nn:x'), sym('u:k')
        who = f.name
        for fk in sorted(fs):
            short = fk.split('::')[-1]
            n += 1
            sites.append('%s in %s' % (short, who))
            F = mkT('fld:' + fk, (owner,))
            v = r.fields.get('f:' + fk)
            if v is None:
                if r.notes:
                    und.append('%s: %s' % (who, str(r.notes[0])[:200]))
                    continue
                out.append(finding('gc:%s:%s' % (who, short), f.where(), '%s is not swept' % short))
                continue
            cur = TT.sel(v, owner)
            S = TT.sel(F, k)
            if meth == 'DeleteUnusedPsddNodes':
                keep = TT.asbool(TT.has(mkT('covered', (p0,)), mkT('fld:PsddNode::' + fld, (x,))))
            else:
                keep = TT.asbool(TT.has(p0, mkT('fld:PsddNode::' + fld, (x,))))
            was = TT.band(TT.asbool(TT.has(F, k)), TT.asbool(TT.has(S, x)))
            S2 = TT.sel(cur, k)
            pres = TT.asbool(TT.has(cur, k))
            # a set that has x is not empty
            for a in list(TT.atoms(pres)):
                if a.op == 'ac' and a.args[0].op == 'size' and a.args[1] is TT.ZERO and a.args[0].args[0] in (S, S2):
                    pres = TT.cofactor(pres, a, 2)
            for what, want, got in (('nodes kept', TT.band(was, keep), TT.band(pres, TT.asbool(TT.has(S2, x)))),
                                    ('stored nodes', TT.ite(TT.band(was, keep), TT.sel(S, x), TT.NULL), TT.ite(TT.band(was, keep), TT.sel(S2, x), TT.NULL))):
                d = Diff().run(want, got)
                if d[0] == DEF:
                    out.append(finding('gc:%s:%s:%s' % (who, short, what), '%s %s' % (f.where(), f.sig), '%s: wrong %s in %s' % (who, what, short),
                                       dict(when=showpath(d[1]), reference=show(d[2])[:400], code=show(d[3])[:400])))
                elif d[0] != SAME:
                    und.append('%s %s: %s' % (who, short, what))
    return dict(rule=gc_sweep.__doc__, instances=n, sites=sites, findings=out, undecided=und)


@rule
def erased_iterators(P):
    """no iterator is read or advanced after its element was erased through it"""
    import flow
    out, sites, und = [], [], []
    n = 0
    for s, l in P.bysig.items():
        for f in l:
            er = [x for x in flow.walk(f.body) if x['k'] == 'mcall' and x['fn'].startswith('std::') and x['fn'].endswith('::erase')]
            if not er:
                continue
            n += len(er)
            sites += ['%s:%d %s' % (f.where().split(':')[0], x['l'], f.name) for x in er]
            d = flow.DeadIterators(f)
            d.run()
            for (line, name), at in sorted(d.found.items()):
                out.append(finding('iter:%s:%s' % (f.name, name), '%s:%d %s' % (f.where().split(':')[0], line, f.sig), '%s is used after its element was erased at line %d' % (name, at)))
    return dict(rule=erased_iterators.__doc__, instances=n, sites=sites, findings=out, undecided=und)


@rule
def word_fields(P):
    """a machine word handed to a member function is kept in members as wide as it is"""
    from flow import walk, strip
    W = {'bool', 'char', 'unsigned char', 'signed char', 'short', 'unsigned short', 'int', 'unsigned int', 'float'}

    def ct(t):
        return t.replace('const ', '').replace('&', '').strip()
    out, sites, n = [], [], 0
    for fs in P.bysig.values():
        for f in fs:
            if not f.cls or not f.body:
                continue
            words = {p['id']: p for p in f.params if ct(p['t']) in ('unsigned long', 'unsigned long long')}
            if not words:
                continue

            def loses(dst, e):
                """the parameter that is cut down to fit dst"""
                if ct(dst) not in W:
                    return None
                for x in walk(e):
                    if x.get('k') == 'var' and x.get('id') in words:
                        return words[x['id']]['n']
                return None

            def stripped(e):
                return strip(e) if isinstance(e, dict) and e.get('k') else e
            for i in f.inits:
                e = i.get('e') or i.get('init')
                if isinstance(e, dict) and i.get('field') and stripped(e).get('k') == 'var':
                    n += 1
                    ft = [x['t'] for x in P.recs.get(f.cls, {}).get('fields', []) if x['n'] == i['field']]
                    w = loses(ft[0], e) if ft else None
                    if w:
                        out.append(finding('word:%s:%s' % (f.sig, i['field']), f.where(), '%s keeps the word %s in the narrower member %s' % (f.name, w, i['field'])))
            for e in walk(f.body):
                if e.get('k') == 'asg' and any(x.get('k') == 'field' for x in walk(e['a'])):
                    b = stripped(e['b'])
                    if b.get('k') not in ('var', 'bin'):
                        continue
                    n += 1
                    w = loses(e['a'].get('t', ''), e['b'])
                    if w and e['op'] in ('=', '+=', '-=', '|=') and not any(x.get('k') == 'bin' and x.get('op') in ('<', '>', '==', '!=', '<=', '>=', '&&', '||') for x in walk(e['b'])):
                        out.append(finding('word:%s:%d' % (f.sig, n), f.where(), '%s keeps the word %s in a member of type %s' % (f.name, w, ct(e['a'].get('t', '')))))
            sites.append(f.sig)
    return dict(rule=word_fields.__doc__, instances=n, sites=sites[:200], findings=out)


def _kept(P, names, what):
    """a store of results keyed by position or index is used by the call that filled it only: results of an earlier
    call belong to another flag index, another vtree or another manager"""
    from flow import walk, strip
    from contracts import memoclasses
    memo = {c.split('::')[-1] for c in memoclasses(P)}
    keyed = re.compile(r'^(std::unordered_map<|std::map<)(long|unsigned long|int), PsddNode \*(, .*)?>$')
    out, sites, und, n = [], [], [], 0
    for fs in P.bysig.values():
        for f in fs:
            if f.name.split('::')[-1] not in names or not f.body:
                continue
            sites.append(f.sig)
            decls = {}
            for x in walk(f.body):
                for d in ([x] if x.get('k') == 'decl' and 'n' in x else []) + [y for y in x.get('decls', x.get('ds', [])) if isinstance(y, dict)]:
                    if 'id' in d:
                        decls[d['id']] = d
            for i, d in decls.items():
                t = re.sub(r'\bconst\b', '', d.get('t', '')).strip()
                if t.split('::')[-1] not in memo and not keyed.match(t):
                    continue
                n += 1
                if not d.get('static'):
                    continue
                uses = [x for x in walk(f.body) if x.get('k') in ('mcall', 'opcall', 'call', 'asg') and any(y.get('id') == i for y in walk(x))]
                reset = [x for x in uses if x['k'] == 'asg' and strip(x['a']).get('id') == i or x.get('fn', '').endswith(('::clear', '::swap', '::operator=', '::erase'))]
                handed = [x for x in uses if x['k'] in ('mcall', 'call') and not x.get('fn', '').startswith('std::')]
                m = '%s keeps the results in %s from one call to the next' % (f.name, d['n'])
                if reset or not handed:
                    und.append(m)
                else:
                    out.append(finding('kept:%s:%s' % (f.sig, d['n']), f.where(), m))
    return dict(rule=what + ': ' + ' '.join(_kept.__doc__.split()), instances=n, sites=sites, findings=out, undecided=und)


@rule
def multiply_kept(P):
    """products"""
    return _kept(P, ('Multiply', 'MultiplyWithCache'), 'products')


@rule
def norm_kept(P):
    """normalised diagrams and true nodes"""
    return _kept(P, ('NormalizePsddNode', 'GetTrueNode'), 'normalised diagrams and true nodes')


@rule
def conf_kept(P):
    """nodes conformed to a vtree"""
    return _kept(P, ('GetConformedPsddDecisionNode', 'NormalizePsddNode', 'GetTrueNode'), 'nodes conformed to a vtree')


@rule
def sdd_kept(P):
    """nodes of a compiled SDD"""
    return _kept(P, ('FromSdd', 'ConvertSddToPsdd'), 'nodes of a compiled SDD')
