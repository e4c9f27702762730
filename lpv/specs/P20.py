"""P20: which files become registered plugin templates, and what happens to the libraries that were opened.

Contracts: Filesystem::GetFilename and GetFileExtension as P16 determines them (functions of the path), PathExists
as P17; dlopen/dlsym/dlclose as ghost operations on handles: every open, every close and every entry point that is
asked for is recorded, and each of them may fail.  The entry points are unknown functions."""
from spec import *
from bus import Dgm, DG, Msg, MSG, field_of, unchanged_but, contracts as value_contracts
from P19 import quiet_log

HARNESS_FLAGS = ['-D%s=lpv_%s' % (f, f) for f in ('dlopen', 'dlsym', 'dlclose', 'dlerror')]
PM, TPL, PI, PC, INFO = 'lp::PluginManager', 'lp::PluginTemplate', 'lp::PluginInstance', 'lp::PluginConfiguration', 'lp::PluginTemplateInfo'
ASSUMPTIONS = ['the prefix and extension of plugin files keep the values the source initialises them with', 'entry points of plugin libraries return normally', 'no other template is registered under an identifier while it is being loaded (a second library with a registered identifier replaces the first)']
TRUSTED = ['dlopen, dlsym, dlclose, dlerror, access as POSIX says: a handle or null, an entry point or null', 'the file name and extension of a path (P16)']
EXT, PRE = 'so', 'libplugin_'
String = z3.StringSort()
fname, fext, fexists = z3.Function('file_name', String, String), z3.Function('file_extension', String, String), z3.Function('exists', String, Bool)
entry = z3.Function('entry_point', Int, String, Int)


def engine(prog):
    X = Engine(prog, StrZ3(), abstract={MSG: Msg, DG: Dgm})
    X.contracts += value_contracts(X)
    quiet_log(X)

    def of(f, sh=None):
        def ap(X, fn, this, a):
            return V(X.shape(fn.ret), [f(X.lib.sv(X.val(a[0])))])
        return ap
    F = 'lp::Filesystem::'
    X.contracts.insert(0, Contract('Filesystem::GetFilename (P16)', F + 'GetFilename', of(fname)))
    X.contracts.insert(0, Contract('Filesystem::GetFileExtension (P16)', F + 'GetFileExtension', of(fext)))
    X.contracts.insert(0, Contract('Filesystem::PathExists (P17)', F + 'PathExists', of(fexists)))
    return X


def describe(X):
    """(offset of the library, offset of the template) in the registered description"""
    m = None
    for n, t, _ in X.prog.recs[PM].fields:
        s = X.shape(t)
        if s.k == 'map':
            m = (n, s)
    vs = m[1].b
    at = {}
    for n, t, _ in X.prog.recs[vs.cls].fields:
        off, _ = vs.offs[(vs.cls, n)]
        at['template' if t.n == 'std::shared_ptr' else 'library'] = 1 + off
    if set(at) != {'template', 'library'}:
        raise Unsupported('fields of ' + vs.cls)
    return m[0], at


def outside(X, ty, name):
    v = X.newsym(X.shape(ty), name)
    return V(v.s, [v.t] + [z3.IntVal(0)] * (len(v.c) - 1))


def libraries(X):
    def fail(X, *a):
        raise Unsupported('library function')

    def dlopen(X, fn, this, a, fr, e):
        p = X.lib.sv(a[0])
        g = X.st.ghost
        X.check('a library is opened only from an existing file', fexists(p), tag='hard')
        X.check('a library is opened only from a file with the plugin prefix', z3.PrefixOf(z3.StringVal(PRE), fname(p)), tag='hard')
        X.check('a library is opened only from a file with the plugin extension', fext(p) == z3.StringVal(EXT), tag='hard')
        X.check('the file that is opened is the one asked for', p == g['path'], tag='hard')
        h = outside(X, fn.ret, 'handle')
        g['open.n'] = z3.simplify(g['open.n'] + z3.If(h.t != 0, 1, 0))
        g['handle'] = h.t
        return h

    def dlsym(X, fn, this, a, fr, e):
        h = X.val(a[0]).t
        X.check('entry points are asked only of the open library', z3.And(X.st.ghost['close.n'] == 0, h == X.st.ghost['handle'], h != 0) if 'handle' in X.st.ghost else z3.BoolVal(False), tag='hard')
        n = X.lib.sv(a[1])
        v = outside(X, fn.ret, 'entry')
        X.assume(v.t == entry(h, n))
        return v

    def dlclose(X, fn, this, a, fr, e):
        h = X.val(a[0]).t
        X.check('only the library that was opened is closed', h == X.st.ghost['handle'] if 'handle' in X.st.ghost else z3.BoolVal(False), tag='hard')
        X.st.ghost['close.n'] = z3.simplify(X.st.ghost['close.n'] + 1)
        return V(INT, [X.fresh(Int, 'result')])
    X.lib.ext.update({'dlopen': dlopen, 'dlsym': dlsym, 'dlclose': dlclose, 'dlerror': lambda X, fn, this, a, fr, e: E.CStr(X.fresh(X.S.sort, 'error'))})


def load(prog):
    X = engine(prog)
    libraries(X)
    fn = the(prog, PM + '::LoadTemplate', 1)
    o = sym_this(X, PM)
    f, at = describe(X)
    info_sym = lambda h: entry(h, z3.StringVal('CreateInfo'))
    create_sym = lambda h: entry(h, z3.StringVal('CreateInstance'))

    def icall(X, fv, args, fr, e):
        g = X.st.ghost
        if not args:
            X.check('the information entry point is what is called', z3.And(fv.t == -info_sym(g['handle']), fv.t != 0, g['close.n'] == 0), tag='hard')
            if 'info' in g:
                return V(X.info_shape, [g['info']])
            r = X.shape(X.T(fr, e))
            p = X.newsym(r, 'info')
            X.info_shape = r
            if X.branch(p.t == 0):
                g['info'], g['id'] = z3.IntVal(0), z3.StringVal('')
                return p
            l = X.alloc(INFO)
            X.assume(p.t == l)
            g['info'] = l
            for n, t, _ in X.prog.recs[INFO].fields:
                if X.shape(t).k == 'str':
                    g['id'] = getf(X, l, INFO, n).t
            return p
        X.st.ghost['made'] = (fv.t, [X.val(v) for v in args])
        p = X.newsym(X.shape(X.T(fr, e)), 'instance')
        X.st.ghost['made.r'] = p.t
        return p
    X.hooks['icall'] = icall
    X.hooks['initial statics'] = True

    def body():
        g = X.st.ghost
        for n in ('handle', 'info', 'id', 'made', 'made.r'):
            g.pop(n, None)
        a = sym_arg(X, fn.pt[0], 'path')
        p = X.val(a).t
        g.update({'open.n': z3.IntVal(0), 'close.n': z3.IntVal(0), 'path': p})
        m0 = getf(X, o, PM, f)
        old = X.st.copy()
        r = invoke(X, fn, o, [a])
        g = X.st.ghost
        X.check('LoadTemplate never throws', z3.BoolVal(r.kind == 'ok'))
        ok = X.val(r.v).t
        m1 = getf(X, o, PM, f)
        h = g.get('handle', z3.IntVal(0))
        i = g.get('id', z3.StringVal(''))
        file_ok = z3.And(fexists(p), z3.PrefixOf(z3.StringVal(PRE), fname(p)), fext(p) == z3.StringVal(EXT))
        complete = z3.And(file_ok, h != 0, info_sym(h) != 0, create_sym(h) != 0, g.get('info', z3.IntVal(0)) != 0, i != z3.StringVal(''))
        X.check('success is reported exactly for complete libraries', ok == complete)
        k = z3.Const('k!l', X.S.sort)
        same = lambda k: z3.And([z3.Select(m1.c[0], k) == z3.Select(m0.c[0], k)] + [z3.Implies(z3.Select(m0.c[0], k), z3.Select(x, k) == z3.Select(y, k)) for x, y in zip(m1.c[1:], m0.c[1:])])
        X.check('without success the registered templates are unchanged', z3.Implies(z3.Not(ok), z3.ForAll([k], same(k))))
        X.check('other templates are unchanged', z3.ForAll([k], z3.Implies(k != i, same(k))))
        X.check('a library that is not registered is closed exactly once', z3.Implies(z3.Not(ok), g['close.n'] == g['open.n']))
        X.check('at most one library is opened', g['open.n'] <= 1)
        X.check('the library of a registered template stays open', z3.Implies(ok, z3.And(g['open.n'] == 1, g['close.n'] == 0)))
        X.check('the template is registered under its identifier with its library', z3.Implies(ok, z3.And(z3.Select(m1.c[0], i), z3.Select(m1.c[at['library']], i) == h)))
        t = z3.Select(m1.c[at['template']], i)
        X.check('the registered template is a new object', z3.Implies(ok, z3.And(t >= old.nxt, t < X.st.nxt)))
        X.check('nothing else changes', unchanged_but(X, old, [(PM, f, o.loc)]))
        if X.branch(ok):
            loc = z3.simplify(X.sel(X.sel(X.heap_at(X.st, (PM, f), m1.s)[at['template']], o.loc), i))
            X.check('the template reports its identifier', X.val(X.inline(the(X.prog, 'lp::Identifiable::GetIdentifier'), ObjLV(loc, 'lp::Identifiable', X.struct_shape('lp::Identifiable')), [])).t == i)
            made(X, loc, h, create_sym(h))
    X.paths = verify(X, body)
    return X


def made(X, loc, h, sym):
    """the creation function of the template calls the entry point of the library once with the given configuration"""
    import P18
    c = z3.simplify(P18.creator(X, ObjLV(loc, TPL, X.struct_shape(TPL))))
    cfg = X.newsym(X.struct_shape(PC), 'configuration')
    for n in ('made', 'made.r'):
        X.st.ghost.pop(n, None)
    try:
        r = X.call_fn_value(V(FN, [c]), [cfg])
    except CxxThrow:
        X.check('creating an instance never throws', z3.BoolVal(False))
        return
    g = X.st.ghost
    if 'made' not in g:
        X.check('creating an instance calls the entry point of the library', z3.BoolVal(False))
        return
    f, args = g['made']
    X.check('creating an instance calls the entry point of the library', f == -sym)
    X.check('it gets the given configuration', z3.And([x == y for x, y in zip(args[0].c, cfg.c)]) if len(args) == 1 else z3.BoolVal(False))
    X.check('it yields the instance the library created', X.val(r).t == g['made.r'])


def tasks(prog):
    return [Task('PluginManager::LoadTemplate', load)]
