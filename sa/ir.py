"""Loads the resolved AST of /repo (and of the reference models) through the
clang front end.  Always derived from the current source; the only cache is
keyed by the content of every file that can influence the result."""
import glob
import hashlib
import json
import os
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

import own

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('PSDD_REPO', '/repo')
TOOL = os.path.join(VERIF, 'build', 'psdd_ir')
EXCL = ['/optionparser.h', '/include/gtest', '/include/gmock', '/include/htd', '/include/nlohmann', '/include/sdd/', '/include/libkahypar', '/test/']


class ToolError(Exception):
    pass


def ensure_tool():
    src = os.path.join(VERIF, 'tool', 'psdd_ir.cpp')
    if not os.path.exists(TOOL) or os.path.getmtime(TOOL) < os.path.getmtime(src):
        r = subprocess.run([os.path.join(VERIF, 'tool', 'build.sh'), TOOL], capture_output=True, text=True)
        if r.returncode != 0:
            raise ToolError('front end does not build: ' + r.stderr[-800:])


def flags_for(path, extra=()):
    fl = ['-D_GLIBCXX_USE_CXX11_ABI=0', '-I' + os.path.join(REPO, 'include')] + list(extra)
    fl += ['-x', 'c', '-std=gnu99'] if path.endswith('.c') else ['-x', 'c++', '-std=gnu++17']
    fl += ['-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-w']
    return fl


def _hash_inputs(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()


def repo_sources():
    out = []
    for pat in ('src/*.cpp', 'src/*.c', 'src/*.cc', '*.cpp', 'src/*/*.cpp'):
        out += glob.glob(os.path.join(REPO, pat))
    return sorted(set(out))


def _all_inputs():
    out = []
    for root in ('src', 'include/psdd'):
        for d, _, fs in os.walk(os.path.join(REPO, root)):
            out += [os.path.join(d, f) for f in fs]
    out += glob.glob(os.path.join(REPO, '*.cpp')) + glob.glob(os.path.join(REPO, '*.h'))
    return [p for p in out if os.path.isfile(p)]


_basehash = []


def dump(path, roots, extra=()):
    ensure_tool()
    if not _basehash:
        srcs = set(repo_sources())
        if any(re.search(rb'#\s*include\s*["<][^">]*\.c(c|pp|xx)?[">]', open(s, 'rb').read()) for s in srcs):
            srcs = set()
        _basehash.append(_hash_inputs([p for p in _all_inputs() if p not in srcs] + [os.path.join(VERIF, 'tool', 'psdd_ir.cpp')]) + REPO)
    hk = hashlib.sha256((_basehash[0] + path + _hash_inputs([path]) + repr(roots) + repr(extra)).encode()).hexdigest()
    cdir = os.path.join(VERIF, 'build', 'cache')
    os.makedirs(cdir, exist_ok=True)
    cf = os.path.join(cdir, hk + '.json')
    if os.path.exists(cf):
        try:
            with open(cf) as f:
                return json.load(f)
        except ValueError:
            pass
    cmd = [TOOL, path] + ['--root=' + r for r in roots] + ['--exclude=' + e for e in EXCL] + ['--'] + flags_for(path, extra)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0 or not r.stdout.strip():
        raise ToolError('%s does not parse: %s' % (path, r.stderr[-1500:]))
    tmp = cf + '.%d' % os.getpid()
    with open(tmp, 'w') as f:
        f.write(r.stdout)
    os.replace(tmp, cf)
    return json.loads(r.stdout)


class Fn:
    def __init__(self, d, tu):
        self.d = d
        self.tu = tu
        self.name = d['fn']
        self.sig = d['sig']
        self.params = d['params']
        self.body = own.rewrite(d['body'])
        self.cls = d.get('cls')
        self.kind = d['kind']
        self.file = d['file']
        self.line = d['line']
        self.ret = d['ret']
        self.over = d.get('over', [])
        self.inits = d.get('inits', [])
        self.internal = d.get('internal', False)

    def where(self):
        return '%s:%d' % (os.path.relpath(self.file, REPO) if self.file.startswith(REPO) else self.file, self.line)


class Program:
    """functions of a set of translation units"""

    def __init__(self):
        self.fns = {}       # (tu, sig) -> Fn
        self.bysig = {}     # sig -> [Fn]
        self.byname = {}
        self.recs = {}
        self.globals = {}
        self.tus = []
        self.overriders = {}

    def add(self, d, path):
        self.tus.append(path)
        for f in d['funcs']:
            fn = Fn(f, path)
            key = (path, fn.sig)
            self.fns[key] = fn
            if not any(g.file == fn.file and g.line == fn.line for g in self.bysig.get(fn.sig, [])):
                self.bysig.setdefault(fn.sig, []).append(fn)
                self.byname.setdefault(fn.name, []).append(fn)
                for o in fn.over:
                    self.overriders.setdefault(o, []).append(fn)
        for r in d['recs']:
            self.recs.setdefault(r['name'], r)
        for g in d['globals']:
            self.globals.setdefault((path, g['n']), g)
            self.globals.setdefault(g['n'], g)

    def resolve(self, sig, tu):
        f = self.fns.get((tu, sig))
        if f is not None:
            return f
        l = self.bysig.get(sig, [])
        l = [g for g in l if not g.internal] or l
        return l[0] if l else None

    def find(self, sig):
        l = self.bysig.get(sig, [])
        return l[0] if l else None


def load_repo():
    p = Program()
    srcs = repo_sources()
    if not srcs:
        raise ToolError('no sources found under ' + REPO)
    roots = [os.path.join(REPO, 'src'), os.path.join(REPO, 'include', 'psdd'), REPO + '/psdd_', REPO + '/uai_'] + \
            [s for s in srcs if os.path.dirname(s) == REPO]
    with ThreadPoolExecutor(8) as ex:
        for s, d in zip(srcs, ex.map(lambda s: dump(s, roots), srcs)):
            p.add(d, s)
    return p


def load_spec(path):
    p = Program()
    p.add(dump(path, [os.path.join(VERIF, 'spec')], ('-I' + os.path.join(VERIF, 'spec'), '-fno-access-control')), path)
    return p


def with_spec(P, path):
    """the repository's program plus the reference functions of one spec file"""
    S = load_spec(path)
    q = Program()
    q.__dict__.update({k: (dict(v) if isinstance(v, dict) else list(v)) for k, v in P.__dict__.items()})
    q.byname = {k: list(v) for k, v in P.byname.items()}
    q.bysig = {k: list(v) for k, v in P.bysig.items()}
    for s in S.tus:
        q.tus.append(s)
    for key, fn in S.fns.items():
        q.fns[key] = fn
        if fn.file.startswith(os.path.join(VERIF, 'spec')):
            q.bysig.setdefault(fn.sig, []).insert(0, fn)
            q.byname.setdefault(fn.name, []).insert(0, fn)
    for n, r in S.recs.items():
        q.recs.setdefault(n, r)
    for k, g in S.globals.items():
        q.globals.setdefault(k, g)
    return q
