"""Helpers to state contracts and to verify a function of /repo against them."""
import z3
from smt import *
from prog import strip_const
import engine as E
from engine import Engine, HeapLV, ObjLV, CellLV, CxxThrow, IterV


class Task:
    """one unit of verification work, run in its own process"""
    def __init__(self, name, run, soft=False, timeout=None):
        self.name, self.run, self.soft, self.timeout = name, run, soft, timeout


class Contract:
    """replacement of calls to a function by its specification"""
    def __init__(self, name, match, apply):
        self.name = name
        self._m = match
        self._a = apply

    def match(self, fn):
        if callable(self._m):
            return self._m(fn)
        if isinstance(self._m, (list, tuple, set)):
            return sig0(fn) in self._m
        return sig0(fn) == self._m

    def apply(self, X, fn, this, args):
        return self._a(X, fn, this, args)


def sig0(fn):
    return fn.sig.split('(')[0]


def the(prog, pat, nargs=None, pred=None):
    """the single function of the program with this qualified name"""
    fs = [f for f in prog.find(pat) if (nargs is None or len(f.params) == nargs) and (pred is None or pred(f))]
    if len(fs) != 1:
        raise Unsupported('%d functions match %s' % (len(fs), pat))
    return fs[0]


def sym_arg(X, ty, hint='arg', nn=False):
    """arbitrary argument of a parameter type (references get their own place)"""
    t = ty.to if ty.k == 'ref' else ty
    s = X.shape(t)
    if t.k == 'ptr' and t.to.k == 'int' and t.to.w == 8 and s.k == 'mptr':
        pass
    if ty.k == 'ref' and s.k == 'struct':
        v = X.newsym(s, hint)
        return X.cell(v, s)
    v = X.newsym(s, hint)
    return X.cell(v, s) if ty.k == 'ref' else v


def sym_this(X, cls, hint='this'):
    """arbitrary live object of a class"""
    loc = X.fresh(Int, hint)
    X.assume(z3.And(loc > 0, loc < X.st.nxt))
    X.bounds[loc.decl().name()] = X.st.nxt
    if X.st.nxt.decl().name() == 'nxt0':
        X.st.old.add(loc.get_id())
        X.keep.append(loc)
    X.assume(X.isdyn(loc, cls))
    return ObjLV(loc, cls, X.struct_shape(cls))


def getf(X, loc, cls, f, st=None):
    """field of an object in a state"""
    sh = None
    for n, t, _ in X.prog.recs[cls].fields:
        if n == f:
            sh = X.shape(t)
    if sh is None:
        raise Unsupported('field %s::%s does not exist' % (cls, f))
    if isinstance(loc, ObjLV):
        loc = loc.loc
    if st is None:
        X.ghosting += 1
        try:
            return X.hread(cls, f, loc, sh)
        finally:
            X.ghosting -= 1
    saved, X.st = X.st, st
    try:
        X.harr((cls, f), sh)
    finally:
        X.st = saved
    return V(sh, [X.sel(a, loc) for a in X.heap_at(st, (cls, f), sh)])


def field_names(X, cls):
    return [n for n, _, _ in X.prog.recs[cls].fields]


def fields_by(X, cls, pred):
    return [n for n, t, _ in X.prog.recs[cls].fields if pred(X.shape(t), t)]


class Out:
    def __init__(self, kind, v=None, exc=None):
        self.kind, self.v, self.exc = kind, v, exc


def invoke(X, fn, this, args):
    """run the real body of fn; the outcome is a value or an exception"""
    try:
        r = X.inline(fn, this, args) if not fn.js.get('ctor') else X.inline(fn, this, args)
        return Out('ok', r)
    except CxxThrow as e:
        return Out('throw', exc=e)


def verify(X, thunk):
    """explore all paths of a verification thunk; it emits obligations with X.check"""
    paths = X.explore(thunk)
    return paths


def unchanged(X, old, keys=None, limit=None):
    """no pre-existing object's field changed (all fields, or the given (cls, field) keys)"""
    cs = []
    l = z3.Const('l!un', Int)
    for key, arrs in X.st.heap.items():
        if keys is not None and key not in keys:
            continue
        o = X.heap_at_raw(old, key, arrs)
        for a, b in zip(arrs, o):
            if not a.eq(b):
                cs.append(z3.ForAll([l], z3.Implies(z3.And(l >= 0, l < old.nxt), z3.Select(a, l) == z3.Select(b, l))))
    return z3.And(cs) if cs else z3.BoolVal(True)


def quantified(t, seen):
    if t.get_id() in seen:
        return False
    seen.add(t.get_id())
    return z3.is_quantifier(t) or any(quantified(c, seen) for c in t.children())


def fact(X, name, ok):
    """a structural condition, decided on this path: if it fails, the ground part of the path condition shows the way here"""
    pc = X.st.pc
    if not ok:
        X.st.pc = [c for c in pc if not quantified(c, set())]
    try:
        X.check(name, z3.BoolVal(ok), tag='hard')
    finally:
        X.st.pc = pc


def ground(X, name, goal):
    """a goal that follows from the quantifier-free part of the path condition, and is refuted by it"""
    pc = X.st.pc
    X.st.pc = [c for c in pc if not quantified(c, set())]
    try:
        X.check(name, goal, tag='hard')
    finally:
        X.st.pc = pc
