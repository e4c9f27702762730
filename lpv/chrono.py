"""std::chrono durations and time points as counts of their unit; clocks never run backwards."""
from fractions import Fraction
import z3
import engine as E
from engine import V, LONG, BOOL, UNIT, Unsupported

DUR, TP = 'std::chrono::duration', 'std::chrono::time_point'


def bare(t):
    while t.k == 'ref':
        t = t.to
    return t


def chrono(t):
    t = bare(t)
    return t.k == 'rec' and t.n in (DUR, TP)


def unit(t):
    """length of one count in seconds"""
    t = bare(t)
    if t.n == TP:
        return unit(t.args[1])
    if t.n != DUR or len(t.args) < 2 or t.args[0].k != 'int':
        raise Unsupported('duration of type ' + t.s)
    r = t.args[1].args
    return Fraction(r[0], r[1])


def scale(x, a, b, trunc=False):
    """a count of unit a as a count of unit b"""
    f = a / b
    if f.denominator == 1:
        return x * f.numerator
    if not trunc:
        raise Unsupported('inexact conversion of a duration')
    y = x * f.numerator
    d = f.denominator
    return z3.If(y >= 0, y / d, -((-y) / d))


def in_unit(t, v, u):
    return z3.simplify(scale(v.t, unit(t), u, True))


def nanos(t, v):
    return in_unit(t, v, Fraction(1, 10 ** 9))


def construct(X, fn, ty, a, vs):
    u = unit(ty)
    if not vs:
        return V(LONG, [z3.IntVal(0)])
    if len(vs) != 1 or vs[0].s.k != 'int':
        raise Unsupported('construction of a duration')
    p = fn.pt[0]
    if chrono(p):
        return V(LONG, [z3.simplify(scale(vs[0].t, unit(p), u))])
    return X.convert(vs[0], LONG)


def now(X, f):
    h = X.hooks.get('now')
    if h:
        t = h(X)
    else:
        t = X.fresh(z3.IntSort(), 'now')
        X.assume(t >= 0)
    u = unit(f.ret)
    k = X.fresh(z3.IntSort(), 'clock')
    n = scale(z3.IntVal(1), u, Fraction(1, 10 ** 9))
    X.assume(z3.And(k * n <= t, t < k * n + n))
    return V(LONG, [k])


def call(L, f, this, a, e):
    """a library call on durations, time points and clocks, or NotImplemented"""
    X = L.X
    q = f.q
    if q in ('std::this_thread::sleep_for', 'std::this_thread::sleep_until', 'std::this_thread::yield', 'sched_yield'):
        h = X.hooks.get('sleep')
        if h:
            h(X, f, [X.val(x) for x in a])
        return V(UNIT, [])
    cn = f.cls.n if f.cls is not None else ''
    if f.n == 'now' and cn.startswith('std::chrono::') and not a and bare(f.ret).n == TP:
        return now(X, f)
    if q.startswith('std::') and f.n.startswith('operator""') and chrono(f.ret):
        cs = sum([list(c) if isinstance(c, (list, tuple)) else [c] for c in f.targs], [])
        s = ''.join(chr(c) for c in cs if isinstance(c, int)).replace("'", '')
        t = z3.IntVal(int(s, 0)) if s else X.val(a[0]).t
        return V(LONG, [t])
    if cn in (DUR, TP) and not f.n.startswith('operator'):
        u = unit(f.cls)
        if f.n in ('count', 'time_since_epoch'):
            return X.val(this)
        if f.n == 'zero':
            return V(LONG, [z3.IntVal(0)])
        if f.n in ('max', 'min'):
            return V(LONG, [z3.IntVal(2 ** 63 - 1 if f.n == 'max' else -2 ** 63)])
    if f.n in ('duration_cast', 'time_point_cast') and q.startswith('std::chrono::') and chrono(f.pt[0]):
        return V(LONG, [z3.simplify(scale(X.val(a[0]).t, unit(f.pt[0]), unit(f.ret), True))])
    if not f.n.startswith('operator'):
        return NotImplemented
    op = f.n[8:].strip()
    if cn in (DUR, TP):
        u = unit(f.cls)
        if op == '=':
            X.write(this, X.val(a[0]))
            return this
        if op in ('+=', '-='):
            x, y = X.val(this).t, X.val(a[0])
            y = scale(y.t, unit(f.pt[0]), u)
            X.write(this, V(LONG, [z3.simplify(x + y if op == '+=' else x - y)]))
            return this
        if op == '*=':
            X.write(this, V(LONG, [X.val(this).t * X.val(a[0]).t]))
            return this
        if op in ('+', '-') and not a:
            x = X.val(this).t
            return V(LONG, [x if op == '+' else -x])
        return NotImplemented
    if not q.startswith('std::chrono::') or len(f.pt) != 2:
        return NotImplemented
    x, y = X.val(a[0]), X.val(a[1])
    c0, c1 = chrono(f.pt[0]), chrono(f.pt[1])
    if c0 and c1:
        u0, u1 = unit(f.pt[0]), unit(f.pt[1])
        if op in ('==', '!=', '<', '<=', '>', '>='):
            m = min(u0, u1)
            while (u0 / m).denominator != 1 or (u1 / m).denominator != 1:
                m = m / 10
            p, r = scale(x.t, u0, m), scale(y.t, u1, m)
            return V(BOOL, [{'==': p == r, '!=': p != r, '<': p < r, '<=': p <= r, '>': p > r, '>=': p >= r}[op]])
        if op in ('+', '-'):
            u = unit(f.ret)
            p, r = scale(x.t, u0, u), scale(y.t, u1, u)
            return V(LONG, [z3.simplify(p + r if op == '+' else p - r)])
        return NotImplemented
    if op == '*' and (c0 or c1):
        i = 0 if c0 else 1
        d, k = (x, y) if c0 else (y, x)
        if k.s.k != 'int':
            raise Unsupported('duration times a fraction')
        return V(LONG, [scale(d.t, unit(f.pt[i]), unit(f.ret)) * k.t])
    return NotImplemented
