"""Program model: loads the typed ASTs that lpx extracts from /repo's current
source and links the functions of all translation units by signature."""
import os, subprocess, json, hashlib, sys, concurrent.futures, glob, pickle

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('LPV_REPO', '/repo')
LPX = os.path.join(VERIF, 'build', 'lpx')
STD = ['-std=gnu++14', '-include', 'fstream', '-D_SILENCE_TR1_NAMESPACE_DEPRECATION_WARNING', '-DZMQ_BUILD_DRAFT_API']


class ExtractError(Exception):
    pass


def build_lpx():
    src = os.path.join(HERE, 'lpx.cpp')
    if os.path.exists(LPX) and os.path.getmtime(LPX) >= os.path.getmtime(src):
        return
    os.makedirs(os.path.dirname(LPX), exist_ok=True)
    tmp = LPX + '.%d' % os.getpid()
    subprocess.run(['g++', '-std=c++17', '-fno-rtti', '-O1', '-I/usr/lib/llvm-18/include', '-D_GNU_SOURCE',
                    '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', src, '-o', tmp,
                    '/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18.1', '-L/usr/lib/llvm-18/lib', '-lLLVM-18'], check=True)
    os.replace(tmp, LPX)


def flags(scratch):
    return STD + ['-I' + scratch + '/inc', '-I' + REPO + '/include', '-I/usr/include/json-c', '-I' + VERIF + '/harness']


def gen_schemas(scratch):
    out = os.path.join(scratch, 'inc', 'lamppost', 'schemas')
    os.makedirs(out, exist_ok=True)
    r = subprocess.run(['flatc', '--cpp', '-o', out] + sorted(glob.glob(REPO + '/schemas/*.fbs')), capture_output=True, text=True)
    if r.returncode:
        raise ExtractError('flatc: ' + r.stdout + r.stderr)


def repo_sources():
    res = []
    for d, _, fs in os.walk(REPO + '/src'):
        if 'windows' in d or 'osx' in d:
            continue
        for f in fs:
            if f.endswith('.cpp'):
                res.append(os.path.join(d, f))
    return sorted(res)


def inst_sources():
    """translation units of ours that instantiate /repo's templates"""
    return sorted(glob.glob(VERIF + '/harness/*.cpp'))


class Type:
    __slots__ = ('s', 'k', 'const', 'w', 'sg', 'char', 'n', 'user', 'args', 'to', 'decl', 'len', 'rv', 'consts', '_sh')

    def __init__(self, s):
        self.s = s
        self.k = 'other'
        self.const = False
        self.w = 0
        self.sg = True
        self.char = False
        self.n = ''
        self.user = False
        self.args = []
        self.to = None
        self.decl = None
        self.len = 0
        self.rv = False
        self.consts = {}
        self._sh = None

    def __repr__(self):
        return '<' + self.s + '>'


def strip_const(s):
    return s[6:] if s.startswith('const ') and not s.endswith('*') and not s.endswith('&') else s


class Fn:
    def __init__(self, tu, js):
        self.tu = tu
        self.js = js
        self.q = js['q']
        self.n = js['n']
        self.user = js.get('user', False)
        T = tu.types
        self.pt = [T[i] for i in js['ptypes']]
        self.ret = T[js['ret']]
        self.cls = T[js['clst']] if 'clst' in js else None
        self.static = js.get('static', False)
        self.virtual = js.get('virtual', False)
        self.body = js.get('body')
        self.params = js.get('params', [])
        self.inits = js.get('inits', [])
        self.lam = js.get('lambda')
        self.targs = [targ(tu, a) for a in js.get('targs', [])]
        self.ctor = js.get('ctor', False)
        self.implicit = js.get('implicit', False)
        cl = strip_const(self.cls.s) if self.cls else ''
        self.sig = '%s(%s)%s' % ((cl + '::' + self.n) if cl else self.q, ','.join(t.s for t in self.pt), ' const' if js.get('cmeth') else '')
        if self.targs:
            self.sig = self.sig.replace('(', '<' + ','.join(tstr(a) for a in self.targs) + '>(', 1)
        self.key = self.sig + ('@%s#%d' % (tu.name, js['id']) if self.lam is not None else '')

    @property
    def loc(self):
        return '%s:%s' % (self.js.get('bfile', self.js.get('file', '?')).replace(REPO + '/', ''), self.js.get('bline', self.js.get('line', 0)))

    def __repr__(self):
        return 'Fn(%s)' % self.key


def targ(tu, a):
    if isinstance(a, int):
        return tu.types[a]
    if isinstance(a, dict) and 'pack' in a:
        return [targ(tu, x) for x in a['pack']]
    if isinstance(a, dict) and 'v' in a:
        return a['v']
    return None


def tstr(a):
    if isinstance(a, Type):
        return a.s
    if isinstance(a, list):
        return ','.join(tstr(x) for x in a)
    return str(a)


class TU:
    def __init__(self, name, js):
        self.name = name
        self.types = []
        for t in js['types']:
            x = Type(t['s'])
            x.k = t.get('k', 'other')
            x.const = t.get('const', False)
            x.w = t.get('w', 0)
            x.sg = t.get('sg', True)
            x.char = t.get('char', False)
            x.n = t.get('n', '') if x.k != 'arr' else ''
            x.len = t.get('n', 0) if x.k == 'arr' else 0
            x.user = t.get('user', False)
            x.rv = t.get('rv', False)
            x.decl = t.get('decl')
            x.consts = t.get('consts') or {}
            self.types.append(x)
        for x, t in zip(self.types, js['types']):
            if 'to' in t:
                x.to = self.types[t['to']]
            x.args = [targ(self, a) for a in t.get('a', [])]
        self.fns = [Fn(self, f) for f in js['fns']]
        self.recs = js['recs']


class Rec:
    def __init__(self, name, bases, fields, methods, poly, tu):
        self.name = name
        self.bases = bases      # [Type]
        self.fields = fields    # [(name, Type, init-json)]
        self.methods = methods  # [Fn]
        self.poly = poly
        self.tu = tu


class Program:
    def __init__(self, tus):
        self.tus = tus
        self.defs = {}
        self.recs = {}
        self.overr = {}      # sig of virtual -> [Fn overriding (any depth)]
        for tu in tus:
            for f in tu.fns:
                if f.body is not None or f.inits:
                    self.defs.setdefault(f.key, f)
            for r in tu.recs:
                if 'fields' not in r:
                    continue
                name = strip_const(r['n'])
                old = self.recs.get(name)
                if old is None or len(r['methods']) > len(old.methods):
                    self.recs[name] = Rec(name, [tu.types[b] for b in r['bases']],
                                          [(f['n'], tu.types[f['t']], f.get('init')) for f in r['fields']],
                                          [tu.fns[m] for m in r['methods']], r.get('poly', False), tu)
        seen = set()
        for tu in tus:
            for f in tu.fns:
                for o in f.js.get('overrides', []):
                    b = tu.fns[o]
                    if (b.key, f.key) not in seen:
                        seen.add((b.key, f.key))
                        self.overr.setdefault(b.key, []).append(f)

    def resolve(self, f):
        if f.lam is not None:
            return f
        if f.body is not None or (f.ctor and f.inits):
            return f
        return self.defs.get(f.key, f)

    def find(self, pat):
        """functions with a body whose signature starts with pat (exact up to '(' if no paren given)"""
        r = []
        for k, f in self.defs.items():
            if f.lam is not None:
                continue
            if k == pat or k.split('(')[0] == pat:
                r.append(f)
        return r

    def bases(self, name):
        r = [name]
        rec = self.recs.get(name)
        if rec:
            for b in rec.bases:
                r += self.bases(strip_const(b.s))
        return r

    def subclasses(self, name):
        return sorted(n for n in self.recs if name in self.bases(n))

    def is_sub(self, a, b):
        if a == b:
            return True
        rec = self.recs.get(a)
        if rec:
            return any(self.is_sub(strip_const(x.s), b) for x in rec.bases)
        STDH = {'std::runtime_error': 'std::exception', 'std::logic_error': 'std::exception', 'std::out_of_range': 'std::logic_error',
                'std::bad_alloc': 'std::exception', 'std::invalid_argument': 'std::logic_error', 'std::bad_function_call': 'std::exception',
                'std::length_error': 'std::logic_error'}
        return a in STDH and self.is_sub(STDH[a], b)


def _extract_one(args):
    src, out, fl, scratch = args
    r = subprocess.run([LPX, out, src, '--root=' + REPO, '--root=' + VERIF + '/harness', '--root=' + scratch + '/inc', '--exclude=' + REPO + '/schemas/', '--exclude=' + REPO + '/include/lamppost/schemas/', '--'] + fl,
                       capture_output=True, text=True)
    if r.returncode or not os.path.exists(out):
        return src, (r.stderr or r.stdout)[-3000:]
    return src, None


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()


def all_inputs():
    ps = []
    for root in (REPO + '/src', REPO + '/include', REPO + '/schemas', VERIF + '/harness'):
        for d, _, fs in os.walk(root):
            ps += [os.path.join(d, f) for f in fs if f.endswith(('.cpp', '.h', '.fbs', '.hpp'))]
    ps.append(os.path.join(HERE, 'lpx.cpp'))
    return sorted(ps)


def load(scratch, sources=None, jobs=8):
    """extract every translation unit of /repo (and the harnesses) and link them"""
    build_lpx()
    gen_schemas(scratch)
    srcs = sources if sources is not None else repo_sources() + inst_sources()
    outd = os.path.join(scratch, 'ast')
    os.makedirs(outd, exist_ok=True)
    work = [(s, os.path.join(outd, hashlib.md5(s.encode()).hexdigest() + '.json'), flags(scratch), scratch) for s in srcs]
    errs = []
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for s, e in ex.map(_extract_one, work):
            if e:
                errs.append((s, e))
    if errs:
        raise ExtractError('extraction failed: ' + '; '.join('%s: %s' % x for x in errs))
    tus = []
    for s, o, _, _ in work:
        with open(o) as f:
            tus.append(TU(os.path.relpath(s, '/'), json.load(f)))
        os.remove(o)
    return Program(tus)
