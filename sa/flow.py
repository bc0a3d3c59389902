"""Forward dataflow over the structured syntax tree, and helpers to walk it."""


def kids(x):
    """direct sub-nodes, in evaluation order as far as it matters"""
    for k in ('init', 'cv', 'ce', 'obj', 'c', 'range', 'e', 'of', 'a', 'b', 'n', 'v', 'args', 'xs', 'var', 'holds', 's', 'body', 'inc', 'hs'):
        v = x.get(k)
        if isinstance(v, dict):
            yield v
        elif isinstance(v, list):
            for y in v:
                if isinstance(y, dict):
                    yield y


def walk(x):
    yield x
    for y in kids(x):
        yield from walk(y)


def strip(e):
    """without casts that keep the value, copies and parentheses"""
    while e['k'] in ('cast', 'copy') and e.get('e'):
        e = e['e']
    return e


class Flow:
    """client state: dict; None is unreachable.  Override expr (post-order effect of one node), refine, join, exit."""
    ROUNDS = 6

    def __init__(self, fn):
        self.fn = fn

    # --- client interface
    def start(self):
        return {}

    def node(self, e, s):
        """effect of one expression node, operands already done"""

    def decl(self, d, s):
        pass

    def refine(self, e, truth, s):
        """e is a condition without !, && and ||"""
        return s

    def join2(self, a, b):
        raise NotImplementedError

    def leave(self, e, s):
        """function exit; e is the return statement or None"""

    # --- machinery
    def copy(self, s):
        return None if s is None else dict(s)

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return self.join2(a, b)

    def run(self):
        self.brk = []
        self.cont = []
        s = self.start()
        for i in self.fn.inits:
            if i.get('e'):
                s = self.ev(i['e'], s)
        s = self.st(self.fn.body, s)
        if s is not None:
            self.leave(None, s)

    def ev(self, e, s):
        if s is None or e is None:
            return s
        k = e['k']
        if k == 'bin' and e['op'] in ('&&', '||'):
            t, f = self.cond(e, s)
            return self.join(t, f)
        if k == 'cond':
            t, f = self.cond(e['c'], s)
            s = self.join(self.ev(e['a'], t), self.ev(e['b'], f))
            if s is not None:
                self.node(e, s)
            return s
        if k == 'lambda':
            self.node(e, s)
            return s
        if k == 'asg':
            s = self.ev(e['b'], s)
            s = self.ev(e['a'], s) if not self.plainvar(e['a']) or e['op'] != '=' else s
        elif k == 'stmtexpr':
            s = self.st(e['s'], s)
        else:
            for y in kids(e):
                s = self.ev(y, s)
        if s is not None:
            self.node(e, s)
            if e.get('fn') in ('abort', 'exit', '__assert_fail', 'std::exit', 'std::abort', '_Exit', 'quick_exit', 'std::terminate') or k == 'throw':
                return None
        return s

    def plainvar(self, e):
        return strip(e)['k'] == 'var'

    def cond(self, e, s):
        if s is None:
            return None, None
        k = e['k']
        if k == 'un' and e['op'] == '!':
            t, f = self.cond(e['e'], s)
            return f, t
        if k == 'cast' and e.get('ck') in ('IntegralToBoolean', 'IntegralCast', 'PointerToBoolean', 'NoOp') and e['e']['k'] in ('bin', 'un', 'cast', 'call', 'mcall', 'var', 'asg'):
            inner = e['e']
            if inner['k'] in ('bin', 'un', 'cast'):
                return self.cond(inner, s)
        if k == 'bin' and e['op'] == '&&':
            t, f = self.cond(e['a'], s)
            t2, f2 = self.cond(e['b'], t)
            return t2, self.join(self.copy(f), f2)
        if k == 'bin' and e['op'] == '||':
            t, f = self.cond(e['a'], s)
            t2, f2 = self.cond(e['b'], f)
            return self.join(self.copy(t), t2), f2
        if k == 'bool':
            return (s, None) if e['v'] else (None, s)
        if k == 'int':
            return (s, None) if e['v'] not in ('0',) else (None, s)
        s = self.ev(e, s)
        if s is None:
            return None, None
        a, b = self.copy(s), self.copy(s)
        return self.refine(e, True, a), self.refine(e, False, b)

    def st(self, x, s):
        if s is None or x is None:
            return s
        k = x['k']
        if k == 'expr':
            return self.ev(x['e'], s)
        if k == 'block':
            for y in x['xs']:
                s = self.st(y, s)
            return s
        if k == 'decls':
            for d in x['xs']:
                if d.get('init') is not None:
                    s = self.ev(d['init'], s)
                if s is None:
                    return None
                self.decl(d, s)
            return s
        if k == 'if':
            for h in ('init', 'cv'):
                if x.get(h):
                    s = self.st(x[h], s)
            t, f = self.cond(x['c'], s)
            t = self.st(x['a'], t)
            f = self.st(x['b'], f) if x.get('b') else f
            return self.join(t, f)
        if k in ('while', 'for', 'do', 'rfor'):
            return self.loop(x, s)
        if k == 'ret':
            if x.get('e'):
                s = self.ev(x['e'], s)
            if s is not None:
                self.leave(x, s)
            return None
        if k == 'break':
            self.brk[-1].append(self.copy(s))
            return None
        if k == 'continue':
            self.cont[-1].append(self.copy(s))
            return None
        if k == 'switch':
            if x.get('init'):
                s = self.st(x['init'], s)
            s = self.ev(x['c'], s)
            return self.switch(x, s)
        if k in ('case', 'default', 'label'):
            return self.st(x['s'], s)
        if k == 'try':
            s0 = self.copy(s)
            s = self.st(x['body'], s)
            for h in x.get('hs', []):
                s = self.join(s, self.st(h, self.join(self.copy(s0), self.copy(s))))
            return s
        return s

    def switch(self, x, s):
        self.brk.append([])
        cur = None
        dflt = False
        body = x['body']['xs'] if x['body']['k'] == 'block' else [x['body']]
        for y in body:
            while y['k'] in ('case', 'default'):
                dflt = dflt or y['k'] == 'default'
                cur = self.join(cur, self.copy(s))
                y = y['s']
            cur = self.st(y, cur)
        out = cur
        if not dflt:
            out = self.join(out, self.copy(s))
        for b in self.brk.pop():
            out = self.join(out, b)
        return out

    def loop(self, x, s):
        k = x['k']
        if k == 'for' and x.get('init'):
            s = self.st(x['init'], s)
        if k == 'rfor':
            s = self.ev(x['range'], s)
        if s is None:
            return None
        entry = s
        out = None
        cur = self.copy(entry)
        for r in range(self.ROUNDS):
            self.brk.append([])
            self.cont.append([])
            t, f = cur, self.copy(cur)
            if k in ('while', 'for'):
                if x.get('cv'):
                    t = self.st(x['cv'], t)
                if x.get('c'):
                    t, f = self.cond(x['c'], t)
                else:
                    f = None
            if k == 'rfor' and t is not None:
                self.decl(x['var'], t)
            t = self.st(x['body'], t)
            for c_ in self.cont.pop():
                t = self.join(t, c_)
            if k == 'for' and x.get('inc') and t is not None:
                t = self.ev(x['inc'], t)
            if k == 'do':
                t, f = self.cond(x['c'], t)
            for b in self.brk.pop():
                out = self.join(out, b)
            out = self.join(out, f)
            nxt = self.join(self.copy(cur), t)
            if nxt == cur:
                break
            cur = nxt
        return out


class DeadIterators(Flow):
    """iterators whose element has been erased, until assigned again"""

    def __init__(self, fn):
        super().__init__(fn)
        self.found = {}

    def join2(self, a, b):
        return {**a, **b}

    def isiter(self, t):
        return 'iterator' in t

    def node(self, e, s):
        k = e['k']
        if k == 'var' and e.get('id') in s:
            self.found.setdefault((e['l'], e['n']), s[e['id']])
        if k == 'asg' or (k == 'call' and e.get('op') == '='):
            v = strip(e['a'] if k == 'asg' else e['args'][0])
            if v['k'] == 'var':
                s.pop(v.get('id'), None)
        if k == 'mcall' and e['fn'].split('::')[-1] == 'erase' and e['fn'].startswith('std::') and len(e['args']) == 1:
            a = strip(e['args'][0])
            while a['k'] in ('ctor', 'mcall') and (a.get('args') or a.get('obj')) and 'iterator' in a.get('t', ''):
                if a['k'] == 'ctor' and len(a['args']) == 1:
                    a = strip(a['args'][0])
                else:
                    break
            if a['k'] == 'var' and self.isiter(a.get('t', '')):
                s[a['id']] = e['l']

    def ev(self, e, s):
        # the target of an assignment is not a use
        if s is not None and e is not None and e['k'] == 'call' and e.get('op') == '=' and len(e['args']) == 2 and strip(e['args'][0])['k'] == 'var':
            s = self.ev(e['args'][1], s)
            if s is not None:
                self.node(e, s)
            return s
        return super().ev(e, s)

    def decl(self, d, s):
        s.pop(d.get('id'), None)
