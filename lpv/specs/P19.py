"""P19: shutdown order of plugin instances and plugin libraries.

Contracts: PluginInstance::Stop stops that instance (its own body is verified: the worker is told to end before it
is joined, and joined at most once); Deinitialize of an instance requires every instance of the template to have
been stopped; PluginTemplate::Unload does both once per instance; closing a library requires its template to have
been unloaded.  The counts per instance, template and library are ghost functions."""
from bus import *

HARNESS_FLAGS = ['-D%s=lpv_%s' % (f, f) for f in ('dlopen', 'dlsym', 'dlclose', 'dlerror')]
TPL, PI, PM = 'lp::PluginTemplate', 'lp::PluginInstance', 'lp::PluginManager'
ASSUMPTIONS = ['registered instances are not null and distinct (P18), registered templates and library handles are distinct (P20)',
               'Initialize, Run and Deinitialize of plugins return normally and do not change the registry of their template',
               'nobody else stops the instances while their template is unloaded']


def counter(X, name):
    a = X.fresh(z3.ArraySort(Int, Int), name)
    X.assume(z3.ForAll([x], z3.Select(a, x) == 0, patterns=[z3.Select(a, x)]))
    X.st.ghost[name] = a


def bump(X, name, k):
    a = X.st.ghost[name]
    X.st.ghost[name] = z3.Store(a, k, z3.simplify(z3.Select(a, k) + 1))


def count(X, name, st=None):
    return (st or X.st).ghost[name]


x = z3.Const('x!c', Int)


def progress(X, names, member, index, dom, current):
    """invariants: the counts cover exactly the members passed so far, or the ones no longer in the registry"""
    def gen(ctx):
        out = []
        qs = [(c, lambda st, c=c: st.cells[c].i) for c, _ in ctx.iters()] + [(c, lambda st, c=c: st.cells[c].t) for c, _ in ctx.ints()]
        for n in names:
            if n not in ctx.mods.ghost:
                continue
            e0 = ctx.entry.ghost[n]
            for c, q in qs:
                for up in (True, False):
                    out.append(('%s: once for every one %s %s' % (n, 'up to' if up else 'from', c), lambda st, n=n, e0=e0, q=q, up=up: z3.ForAll([x],
                               z3.Select(st.ghost[n], x) == z3.Select(e0, x) + z3.If(z3.And(member(x), between(index(x), q(ctx.entry), q(st), up)), 1, 0), patterns=[z3.Select(st.ghost[n], x)])))
            out.append(('%s: once for every one taken out' % n, lambda st, n=n, e0=e0: z3.ForAll([x],
                       z3.Select(st.ghost[n], x) == z3.Select(e0, x) + z3.If(z3.And(member(x), current(ctx.entry, x), z3.Not(current(st, x))), 1, 0), patterns=[z3.Select(st.ghost[n], x)])))
        return out
    X.invs.append(gen)


def registry(X, o, cls, what):
    f = field_of(X, cls, lambda s, t: s.k == 'map', what)
    return f, getf(X, o, cls, f)


def unload(prog):
    X = engine(prog)
    fn = the(prog, TPL + '::Unload', 0)
    o = sym_this(X, TPL)
    f, m0 = registry(X, o, TPL, 'instances')
    kof = z3.Function('name_of', Int, X.S.sort)
    k = z3.Const('k!x', X.S.sort)
    d0, v0 = m0.c[0], m0.c[1]
    X.assume(z3.ForAll([k], z3.Implies(z3.Select(d0, k), z3.And(kof(z3.Select(v0, k)) == k, z3.Select(v0, k) > 0, z3.Select(v0, k) < X.st.nxt)), patterns=[z3.Select(v0, k)]))
    X.map_axioms(d0)
    member = lambda x: z3.And(z3.Select(d0, kof(x)), z3.Select(v0, kof(x)) == x)

    def current(st, x):
        m = getf(X, o, TPL, f, st)
        return z3.And(z3.Select(m.c[0], kof(x)), z3.Select(m.c[1], kof(x)) == x)

    def stop(X, fn, this, a):
        bump(X, 'stopped', this.loc)
        return V(UNIT, [])

    def deinit(X, fn, this, a):
        X.check('an instance is deinitialised only when every instance of the template is stopped',
                z3.ForAll([x], z3.Implies(member(x), z3.Select(count(X, 'stopped'), x) >= 1)), tag='hard')
        bump(X, 'deinitialised', this.loc)
        return V(UNIT, [])
    X.contracts.insert(0, Contract('PluginInstance::Stop: stops the instance', PI + '::Stop', stop))
    X.contracts.insert(0, Contract('PluginInstance::Deinitialize (virtual): deinitialises the instance', PI + '::Deinitialize', deinit))
    progress(X, ('stopped', 'deinitialised'), member, lambda x: X.idxof(d0, kof(x)), d0, current)

    def body():
        counter(X, 'stopped')
        counter(X, 'deinitialised')
        old = X.st.copy()
        r = invoke(X, fn, o, [])
        X.check('Unload never throws', z3.BoolVal(r.kind == 'ok'))
        for n, t in (('stopped', 'stopped'), ('deinitialised', 'deinitialised')):
            X.check('every instance is %s exactly once and nothing else is' % t, z3.ForAll([x], z3.Select(count(X, n), x) == z3.If(member(x), 1, 0)))
        m1 = getf(X, o, TPL, f)
        X.check('no instance remains registered', z3.ForAll([k], z3.Not(z3.Select(m1.c[0], k))))
    X.paths = verify(X, body)
    return X


def quiet_log(X):
    def none(X, fn, this, a):
        return V(X.shape(fn.ret), []) if fn.ret.k == 'void' else X.newsym(X.shape(fn.ret), 'log')
    X.contracts.insert(0, Contract('Log: reports, changes nothing else', lambda f: f.cls is not None and strip_const(f.cls.s) == 'lp::log::Log' and not f.js.get('ctor') and not f.js.get('dtor'), none))


def unload_all(prog):
    X = engine(prog)
    quiet_log(X)
    fn = the(prog, PM + '::UnloadTemplates', 0)
    o = sym_this(X, PM)
    f, m0 = registry(X, o, PM, 'templates')
    d0 = m0.c[0]
    vs = m0.s.b
    at = {}
    for n, t, _ in X.prog.recs[vs.cls].fields:
        sh = X.shape(t)
        off, _ = vs.offs[(vs.cls, n)]
        at['template' if sh.k == 'ptr' and t.n == 'std::shared_ptr' else 'library'] = off
    if set(at) != {'template', 'library'}:
        raise Unsupported('fields of ' + vs.cls)
    tpl, lib = m0.c[1 + at['template']], m0.c[1 + at['library']]
    k = z3.Const('k!x', X.S.sort)
    kof, hof = z3.Function('name_of', Int, X.S.sort), z3.Function('name_of_library', Int, X.S.sort)
    X.assume(z3.ForAll([k], z3.Implies(z3.Select(d0, k), z3.And(kof(z3.Select(tpl, k)) == k, z3.Select(tpl, k) > 0, z3.Select(tpl, k) < X.st.nxt)), patterns=[z3.Select(tpl, k)]))
    X.assume(z3.ForAll([k], z3.Implies(z3.Select(d0, k), z3.And(hof(z3.Select(lib, k)) == k, z3.Select(lib, k) != 0)), patterns=[z3.Select(lib, k)]))
    X.map_axioms(d0)
    member = lambda x: z3.And(z3.Select(d0, kof(x)), z3.Select(tpl, kof(x)) == x)
    handle = lambda x: z3.And(z3.Select(d0, hof(x)), z3.Select(lib, hof(x)) == x)

    def there(kf, i):
        def current(st, x):
            m = getf(X, o, PM, f, st)
            return z3.And(z3.Select(m.c[0], kf(x)), z3.Select(m.c[1 + i], kf(x)) == x)
        return current

    def unload1(X, fn, this, a):
        X.check('a template is unloaded before its library is closed', z3.Implies(member(this.loc), z3.Select(count(X, 'closed'), z3.Select(lib, kof(this.loc))) == 0), tag='hard')
        bump(X, 'unloaded', this.loc)
        return V(UNIT, [])

    def dlclose(X, fn, this, a, fr, e):
        h = X.val(a[0]).t
        X.check('a library is closed only after its template is unloaded', z3.Implies(handle(h), z3.Select(count(X, 'unloaded'), z3.Select(tpl, hof(h))) >= 1), tag='hard')
        bump(X, 'closed', h)
        return V(INT, [X.fresh(Int, 'result')])
    X.lib.ext['dlclose'] = dlclose
    X.lib.ext['dlerror'] = lambda X, fn, this, a, fr, e: E.CStr(X.fresh(X.S.sort, 'error'))
    X.contracts.insert(0, Contract('PluginTemplate::Unload: unloads the template (above)', TPL + '::Unload', unload1))
    progress(X, ('unloaded',), member, lambda x: X.idxof(d0, kof(x)), d0, there(kof, at['template']))
    progress(X, ('closed',), handle, lambda x: X.idxof(d0, hof(x)), d0, there(hof, at['library']))

    def body():
        counter(X, 'unloaded')
        counter(X, 'closed')
        r = invoke(X, fn, o, [])
        X.check('UnloadTemplates never throws', z3.BoolVal(r.kind == 'ok'))
        X.check('every template is unloaded exactly once', z3.ForAll([x], z3.Select(count(X, 'unloaded'), x) == z3.If(member(x), 1, 0)))
        X.check('every library is closed exactly once', z3.ForAll([x], z3.Select(count(X, 'closed'), x) == z3.If(handle(x), 1, 0)))
        m1 = getf(X, o, PM, f)
        X.check('no template remains registered', z3.ForAll([k], z3.Not(z3.Select(m1.c[0], k))))
        old = X.st.copy()
        r = invoke(X, fn, o, [])
        X.check('a second UnloadTemplates does nothing', z3.And(z3.BoolVal(r.kind == 'ok'), count(X, 'unloaded') == count(X, 'unloaded', old), count(X, 'closed') == count(X, 'closed', old), unchanged(X, old)))
    X.paths = verify(X, body)
    return X


THREAD = 'std::thread'


def threads(X, run):
    """std::thread: joinable from its construction until join; the callable is run once (its effect is recorded)"""
    def make(X, fn, a):
        s = X.shape(fn.cls)
        if not a:
            return V(s, [z3.BoolVal(False)])
        if len(a) == 1 and isinstance(a[0], E.LV) and X.read(a[0]).s.k == 'struct' and X.read(a[0]).s.cls == THREAD:
            v = X.read(a[0])
            X.write(a[0], V(s, [z3.BoolVal(False)]))
            return v
        v = X.val(a[0]) if not isinstance(a[0], E.FnRef) else a[0]
        if isinstance(v, E.FnRef):
            run(X, v.fn, X.val(a[1]).t if len(a) > 1 else None)
        elif isinstance(v, V) and v.s.k == 'fn':
            X.call_fn_value(v, [X.val(y) for y in a[1:]])
        else:
            raise Unsupported('thread of a %s' % type(v).__name__)
        X.st.ghost['threads'] = z3.simplify(X.st.ghost['threads'] + 1)
        return V(s, [z3.BoolVal(True)])

    def ctor(X, fn, this, a):
        v = make(X, fn, a)
        if this is not None:
            X.write(this, v)
        return v

    def assign(X, fn, this, a, fr, e):
        v = X.val(a[0])
        if isinstance(a[0], E.LV):
            X.write(a[0], V(v.s, [z3.BoolVal(False)]))
        X.check('a running thread is not overwritten', z3.Not(X.val(this).t), tag='hard')
        X.write(this, v)
        return this

    def join(X, fn, this, a, fr, e):
        X.check('only a running thread is joined', X.val(this).t, tag='hard')
        X.check('the worker is told to end before it is joined', z3.Not(X.run_flag()), tag='hard')
        X.st.ghost['joins'] = z3.simplify(X.st.ghost['joins'] + 1)
        X.write(this, V(X.val(this).s, [z3.BoolVal(False)]))
        return V(UNIT, [])
    X.contracts.insert(0, Contract('std::thread constructor', lambda f: f.cls is not None and f.cls.n == THREAD and f.js.get('ctor'), ctor))
    X.lib.ext[THREAD + '::operator='] = assign
    X.lib.ext[THREAD + '::join'] = join
    X.lib.ext[THREAD + '::joinable'] = lambda X, fn, this, a, fr, e: V(BOOL, [X.val(this).t])


def instance(prog, name):
    def run(prog):
        X = engine(prog)
        X.ext[THREAD] = [('joinable', BOOL)]
        quiet_log(X)
        fn = the(prog, PI + '::' + name, 0)
        o = sym_this(X, PI)

        def ran(X, f, this):
            X.st.ghost['runs'] = z3.simplify(X.st.ghost['runs'] + 1)
            X.check('the worker of an instance runs that instance', z3.And(z3.BoolVal(sig0(f) == PI + '::Run'), this == o.loc) if this is not None else z3.BoolVal(False), tag='hard')
            X.check('the running flag is set before the worker starts', X.run_flag(), tag='hard')
        threads(X, ran)

        def contract(X, fn, this, a):
            ran(X, fn, this.loc)
            return V(UNIT, [])
        X.contracts.insert(0, Contract('PluginInstance::Run (virtual)', PI + '::Run', contract))
        ff = field_of(X, PI, lambda s, t: t.k == 'rec' and t.n == 'std::atomic' and s.k == 'bool', 'running flag')
        ft = field_of(X, PI, lambda s, t: s.k == 'struct' and s.cls == THREAD, 'worker thread')
        X.run_flag = lambda st=None: getf(X, o, PI, ff, st).t
        worker = lambda st=None: getf(X, o, PI, ft, st).t

        def body():
            X.st.ghost.update({'threads': z3.IntVal(0), 'joins': z3.IntVal(0), 'runs': z3.IntVal(0)})
            old = X.st.copy()
            X.assume(worker() == X.run_flag())
            was = X.run_flag()
            if name == 'Start':
                X.assume(z3.Not(was))
            r = invoke(X, fn, o, [])
            X.check(name + ' never throws', z3.BoolVal(r.kind == 'ok'))
            up = z3.BoolVal(name == 'Start')
            X.check('the running flag tells whether the instance was started', X.run_flag() == up)
            X.check('the worker exists exactly while the instance is started', worker() == up)
            X.check('exactly one worker is started' if name == 'Start' else 'no worker is started', X.st.ghost['threads'] == (1 if name == 'Start' else 0))
            X.check('the worker runs the instance exactly once' if name == 'Start' else 'the instance is not run', X.st.ghost['runs'] == (1 if name == 'Start' else 0))
            X.check('the worker is joined exactly once' if name == 'Stop' else 'nothing is joined', X.st.ghost['joins'] == (z3.If(was, 1, 0) if name == 'Stop' else 0))
            X.check('nothing else changes', unchanged_but(X, old, [(PI, ff, o.loc), (PI, ft, o.loc)]))
        X.paths = verify(X, body)
        return X
    return Task('PluginInstance::' + name, run)


def tasks(prog):
    return [Task('PluginTemplate::Unload', unload), Task('PluginManager::UnloadTemplates', unload_all), instance(prog, 'Start'), instance(prog, 'Stop')]
