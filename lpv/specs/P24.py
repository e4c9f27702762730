"""P24: a log call writes one complete line while it holds one process-wide lock."""
from spec import *

L = 'lp::log::Log'
TRUSTED = ['operator<< appends the text it is given to the stream; std::endl writes one newline and flushes', 'std::mutex excludes other threads while it is held']
ASSUMPTIONS = ['std::cout carries no state changed by other code (width, fill) and writes do not fail']
SPACE = z3.IntVal(32)


def rep(X, n):
    """n blanks, with the unfolding of this very term"""
    f = z3.Function('str.repeat', Int, Int, X.S.sort)
    r = f(n, SPACE)
    b = X.S.lit(b' ')
    X.assume(z3.Implies(n <= 0, r == X.S.lit(b'')))
    X.assume(z3.Implies(n >= 0, X.S.len(r) == n))
    for k in (1, 2):
        p = f(z3.simplify(n - k), SPACE)
        bb = X.S.lit(b' ' * k)
        X.assume(z3.Implies(n >= k, z3.And(r == z3.Concat(p, bb), r == z3.Concat(bb, p))))
        X.assume(z3.Implies(n == k, r == bb))
    return r


def invs(ctx):
    X = ctx.X
    out = []
    for c in sorted(ctx.mods.cells, key=str):
        v = ctx.entry.cells.get(c)
        if not isinstance(v, V) or v.s.k != 'str':
            continue
        for ic, iv in ctx.ints():
            for sg in (1, -1):
                for m in (1, 2):
                    out.append(('cell%s is its initial text and %d blanks per round' % (c, m), lambda st, c=c, v=v, ic=ic, iv=iv, sg=sg, m=m:
                                st.cells[c].t == z3.Concat(v.t, rep(X, z3.simplify(m * sg * (st.cells[ic].t - iv.t))))))
                    out.append(('cell%s is %d blanks per round and its initial text' % (c, m), lambda st, c=c, v=v, ic=ic, iv=iv, sg=sg, m=m:
                                st.cells[c].t == z3.Concat(rep(X, z3.simplify(m * sg * (st.cells[ic].t - iv.t))), v.t)))
    return out


def task(name):
    def run(prog):
        X = Engine(prog, StrZ3())
        fn = the(prog, L + '::' + name)
        X.invs.append(invs)
        o = sym_this(X, L)

        def global_lock():
            return [h for h in X.st.held if h[0] not in ('h',) and is_global(X, h)]

        def on_out(X, lv, t):
            if not is_stream(X, lv):
                return
            X.check('output only while a process-wide lock is held', z3.BoolVal(bool(global_lock())), tag='hard')
            X.check('the line is not split over several lock regions', z3.Not(X.st.ghost['log.split']), tag='hard')
            X.st.ghost['log.out'] = z3.Concat(X.st.ghost['log.out'], t)

        def on_unlock(X, i):
            X.st.ghost['log.split'] = z3.Or(X.st.ghost['log.split'], z3.Length(X.st.ghost['log.out']) > 0)

        def on_lock(X, i):
            X.check('no lock is taken twice', z3.BoolVal(not any(h == i for h in X.st.held)), tag='hard')
        X.hooks.update(stream_out=on_out, unlock=on_unlock, lock=on_lock)

        def body():
            X.st.ghost['log.out'] = z3.StringVal('')
            X.st.ghost['log.split'] = z3.BoolVal(False)
            a = [sym_arg(X, t, n) for t, n in zip(fn.pt, ('message', 'level'))]
            if len(a) != 2:
                raise Unsupported('parameters of ' + name)
            msg, lvl = X.val(a[0]).t, X.val(a[1]).t
            p = getf(X, o, L, prefix_field(X)).t
            X.note = {'prefix': p, 'message': msg, 'level': lvl}
            old = X.st.copy()
            r = invoke(X, fn, o, a)
            X.check(name + ' never throws', r.kind == 'ok')
            if r.kind != 'ok':
                return
            want = z3.Concat(z3.StringVal('['), p, z3.StringVal('] '), rep(X, z3.simplify(z3.If(lvl > 0, 2 * lvl, z3.IntVal(0)))), msg, z3.StringVal('\n'))
            X.check(name + ' writes exactly the line', X.st.ghost['log.out'] == want)
            X.check(name + ' releases every lock', z3.BoolVal(not X.st.held), tag='hard')
            X.check(name + ' changes no object', unchanged(X, old))
        X.paths = verify(X, body)
        return X
    return Task('Log::' + name, run)


def prefix_field(X):
    fs = fields_by(X, L, lambda s, t: s.k == 'str')
    if len(fs) != 1:
        raise Unsupported('prefix field of Log')
    return fs[0]


def is_global(X, h):
    return X.is_global_key(h)


def is_stream(X, lv):
    return X.is_global_key(lv.key())


def ctor(prog):
    X = Engine(prog, StrZ3())
    fn = the(prog, L + '::Log', 1, lambda f: f.pt[0].k != 'ref')
    o = ObjLV(X.alloc(L), L, X.struct_shape(L))

    def body():
        a = sym_arg(X, fn.pt[0], 'prefix')
        r = invoke(X, fn, o, [a])
        X.check('Log(prefix) never throws', r.kind == 'ok')
        if r.kind == 'ok':
            X.check('Log(prefix) stores the prefix', getf(X, o, L, prefix_field(X)).t == X.val(a).t)
    X.paths = verify(X, body)
    return X


def tasks(prog):
    return [task('Info'), task('Warning'), task('Error'), Task('Log(prefix)', ctor)]
