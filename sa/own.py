"""Local pointers that merely own a heap container (T *x = new T; ... delete x;
x = y at the end of y's life) behave as containers held by value.  Rewrites
such pointers away; anything that could alias stays as it was."""
import re

CONT = re.compile(r'^(const )?std::(__cxx11::)?(unordered_map|unordered_set|map|set|vector|deque|list|stack|queue)<.*> \*( const)?$')


def nodes(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            yield from nodes(v)
    elif isinstance(x, list):
        for v in x:
            yield from nodes(v)


def isvar(e):
    return isinstance(e, dict) and e.get('k') == 'var' and 'id' in e and 'g' not in e


def bare(e):
    while isinstance(e, dict) and e.get('k') in ('copy',) and e.get('e'):
        e = e['e']
    if isinstance(e, dict) and e.get('k') == 'cast' and e.get('ck') in ('LValueToRValue', 'NoOp') and e.get('e'):
        return bare(e['e'])
    return e


def candidates(body):
    cand = {}
    for d in nodes(body):
        if d.get('k') == 'decl' and CONT.match(d.get('t', '')):
            i = bare(d.get('init'))
            cand[d['id']] = d
    if not cand:
        return cand
    ok = set(cand)
    allowed = {}
    copies = []      # (target id, source id)

    def use(e):
        allowed[id(e)] = True

    def val(e, tgt):
        e = bare(e)
        if not isinstance(e, dict):
            return False
        if e['k'] == 'new' and not e.get('arr'):
            return True
        if isvar(e) and e['id'] in cand:
            use(e)
            copies.append((tgt, e['id']))
            return True
        return False
    for x in nodes(body):
        k = x.get('k')
        if k == 'decl' and x['id'] in cand:
            if not val(x.get('init'), x['id']):
                ok.discard(x['id'])
        elif k == 'asg' and x['op'] == '=' and isvar(x['a']) and x['a']['id'] in cand:
            use(x['a'])
            if not val(x['b'], x['a']['id']):
                ok.discard(x['a']['id'])
        elif k == 'deref':
            v = bare(x['e'])
            if isvar(v) and v['id'] in cand:
                use(v)
        elif k == 'delete':
            v = bare(x['e'])
            if isvar(v) and v['id'] in cand:
                use(v)
    for x in nodes(body):
        if isvar(x) and x['id'] in cand and id(x) not in allowed:
            ok.discard(x['id'])
    # a copied pointer must be the last use of its source's life
    for tgt, src in copies:
        if not endoflife(body, tgt, src):
            ok.discard(tgt)
            ok.discard(src)
    while True:
        n = len(ok)
        for a, b in copies:
            if a not in ok or b not in ok:
                ok.discard(a)
                ok.discard(b)
        if len(ok) == n:
            break
    return {i: cand[i] for i in ok}


def endoflife(body, tgt, src):
    """the statement copying src sits in the block declaring src and nothing after it there mentions src"""
    for b in nodes(body):
        if b.get('k') == 'block':
            xs = b['xs']
            di = [i for i, s in enumerate(xs) if any(d.get('k') == 'decl' and d.get('id') == src for d in (s.get('xs', [s]) if s.get('k') in ('decls', 'decl') else []))]
            if not di:
                continue
            cs = [i for i, s in enumerate(xs) if s.get('k') in ('expr', 'decls', 'decl') and any(
                (x.get('k') == 'asg' and isvar(x['a']) and x['a']['id'] == tgt and isvar(bare(x['b'])) and bare(x['b'])['id'] == src) or
                (x.get('k') == 'decl' and x.get('id') == tgt and isvar(bare(x.get('init'))) and bare(x['init'])['id'] == src) for x in nodes(s))]
            if len(cs) != 1:
                return False
            return not any(isvar(x) and x['id'] == src for s in xs[cs[0] + 1:] for x in nodes(s))
    return False


def rewrite(body):
    cand = candidates(body)
    if not cand:
        return body

    def t(x):
        if isinstance(x, list):
            return [t(v) for v in x]
        if not isinstance(x, dict):
            return x
        k = x.get('k')
        if k == 'deref':
            v = bare(x['e'])
            if isvar(v) and v['id'] in cand:
                return dict(v, t=x['t'])
        if k == 'delete':
            v = bare(x['e'])
            if isvar(v) and v['id'] in cand:
                return {'k': 'asg', 'op': '=', 'a': dict(v, t=elt(v['t'])), 'b': {'k': 'undefv', 't': elt(v['t'])}, 'l': x.get('l'), 't': elt(v['t'])}
        if k == 'new' and CONT.match(x.get('t', '')) and x.get('own'):
            pass
        if k == 'decl' and x['id'] in cand:
            return dict(x, t=elt(x['t']), init=content(x['init'], t))
        if k == 'asg' and isvar(x['a']) and x['a']['id'] in cand:
            return dict(x, a=dict(x['a'], t=elt(x['a']['t'])), b=content(x['b'], t), t=elt(x['a']['t']))
        return {a: t(b) for a, b in x.items()}
    return t(body)


def elt(t):
    return t.rsplit(' *', 1)[0].strip()


def content(e, t):
    e = bare(e)
    if e['k'] == 'new':
        if e.get('init'):
            return t(e['init'])
        return {'k': 'ctor', 'args': [], 'pt': [], 'cls': e['ty'].split('<')[0], 'fn': '', 'sig': '', 't': e['ty'], 'l': e.get('l')}
    return dict(e, t=elt(e['t']))
