"""P21: the life cycle of a framework instance.

Start is verified against contracts of the operations it is made of: loading and unloading of templates (P19, P20),
reading a configuration file (P22), running a bus (P10, P11).  Each is an event of the ghost history, and at each of
them IsStopped (its real body) must answer no."""
from bus import *
from P19 import quiet_log

HARNESS_FLAGS = ['-D%s=lpv_%s' % (f, f) for f in ('dlopen', 'dlsym', 'dlclose', 'dlerror')]
LAMP, PM, SM = 'lp::LampPost', 'lp::PluginManager', 'lp::settings::SettingsManager'
ASSUMPTIONS = ['an instance is started at most once', 'loading, reading, running and unloading return normally', 'sequentially consistent atomics']


def lamp(prog):
    X = engine(prog)
    quiet_log(X)
    o = sym_this(X, LAMP)
    froot = field_of(X, LAMP, lambda s, t: to_cls(t, BUS), 'root bus')
    fstate = field_of(X, LAMP, lambda s, t: t.k == 'rec' and t.n == 'std::atomic', 'run state')
    stop = the(prog, LAMP + '::IsStopped', 0)

    def stopped():
        r = invoke(X, stop, o, [])
        return X.val(r.v).t
    return X, o, froot, fstate, stopped


def whole(X):
    """state of the plugin manager is opaque here: its operations are contracts"""
    def nothing(X, fn, this, a):
        return V(X.shape(fn.ret), []) if fn.ret.k == 'void' else X.newsym(X.shape(fn.ret), 'result')
    X.contracts.insert(0, Contract('PluginManager: setters', lambda f: sig0(f) in (PM + '::SetBus', PM + '::AddTemplateSearchPath'), nothing))
    X.contracts.insert(0, Contract('Bus::Detach', BUS + '::Detach', nothing))


def start(prog):
    X, o, froot, fstate, stopped = lamp(prog)
    whole(X)
    fn = the(prog, LAMP + '::Start', 0)

    def ev(name, requires, what):
        def ap(X, fn, this, a):
            g = X.st.ghost
            X.check('an instance that is running does not report that it has stopped', z3.Not(stopped()), tag='hard')
            X.check(what, requires(g, this, a), tag='hard')
            g[name] = z3.simplify(g[name] + 1)
            return V(X.shape(fn.ret), []) if fn.ret.k == 'void' else X.newsym(X.shape(fn.ret), 'result')
        return ap

    def order(g, this, a):
        return z3.And(g['load'] == 1, g['run'] == 0, g['unload'] == 0)
    C = X.contracts.insert
    C(0, Contract('PluginManager::LoadTemplates (P20)', PM + '::LoadTemplates', ev('load', lambda g, t, a: z3.And(g['read'] == 0, g['run'] == 0, g['unload'] == 0), 'templates are loaded before configuration files are read and the bus runs')))
    C(0, Contract('LampPost::ReadConfigurationFile (P22)', LAMP + '::ReadConfigurationFile', ev('read', order, 'configuration files are read after templates are loaded and before the bus runs')))
    C(0, Contract('Bus::Start (P10): runs the bus until it is stopped', BUS + '::Start', ev('run', lambda g, t, a: z3.And(g['load'] == 1, g['unload'] == 0, g['run'] == 0, t.loc == X.rootbus), 'the root bus runs after loading and before unloading')))
    C(0, Contract('PluginManager::UnloadTemplates (P19)', PM + '::UnloadTemplates', ev('unload', lambda g, t, a: z3.And(g['run'] == 1), 'templates are unloaded after the bus has returned')))

    def body():
        g = X.st.ghost
        for n in ('load', 'read', 'run', 'unload'):
            g[n] = z3.IntVal(0)
        X.rootbus = getf(X, o, LAMP, froot).t
        X.assume(z3.And(X.rootbus > 0, X.rootbus < X.st.nxt))
        X.assume(z3.Not(stopped()))
        files = [n for n, t, _ in X.prog.recs[LAMP].fields if X.shape(t).k == 'struct' and any(X.shape(t2).k == 'seq' for _, t2, _ in X.prog.recs[strip_const(t.s)].fields) and 'LampPostConfiguration' in t.s]
        X.files = None
        if len(files) == 1:
            v = getf(X, o, LAMP, files[0])
            for c, f, sh in v.s.fields:
                if sh.k == 'seq':
                    X.files = v.c[v.s.offs[(c, f)][0]]
            X.assume(X.files >= 0)
        r = invoke(X, fn, o, [])
        g = X.st.ghost
        if r.kind != 'ok':
            X.check('Start itself never throws', z3.BoolVal(False))
            return
        X.check('an instance whose start call has returned reports that it has stopped', stopped())
        for n, w in (('load', 'templates are loaded exactly once'), ('run', 'the root bus runs exactly once')):
            X.check(w, g[n] == 1)
        X.check('templates are unloaded before Start returns', g['unload'] >= 1)
        if X.files is not None:
            X.check('every configuration file is read', g['read'] == X.files)
    X.paths = verify(X, body)
    return X


def stop(prog):
    X, o, froot, fstate, stopped = lamp(prog)
    fn = the(prog, LAMP + '::Stop', 0)

    def bus_stop(X, fn, this, a):
        X.st.ghost['asked'] = z3.BoolVal(True)
        return V(UNIT, [])
    X.contracts.insert(0, Contract('Bus::Stop (P10)', BUS + '::Stop', bus_stop))

    def body():
        X.st.ghost['asked'] = z3.BoolVal(False)
        root = getf(X, o, LAMP, froot).t
        X.assume(z3.And(root > 0, root < X.st.nxt))
        was = stopped()
        r = invoke(X, fn, o, [])
        X.check('asking an instance to stop does not make it report that it has stopped', z3.And(z3.BoolVal(r.kind == 'ok'), stopped() == was))
        X.check('asking an instance to stop stops its root bus', X.st.ghost['asked'])
    X.paths = verify(X, body)
    return X


def construct(prog):
    X, o, froot, fstate, stopped = lamp(prog)
    whole(X)
    fn = the(prog, LAMP + '::LampPost', 1, lambda f: f.js.get('ctor') and not f.js.get('copyctor') and not f.js.get('movector'))

    def ctor(X, f, this, a):
        v = X.newsym(X.shape(f.cls), 'made')
        if this is not None:
            X.write(this, v)
        return v
    X.contracts.insert(0, Contract('construction of the parts', lambda f: f.js.get('ctor') and f.cls is not None and strip_const(f.cls.s) in (PM, SM, 'lp::log::Log', BUS) and not f.js.get('copyctor'), ctor))
    X.contracts.insert(0, Contract('SettingsManager: reading', lambda f: f.cls is not None and strip_const(f.cls.s) == SM and not f.js.get('ctor') and not f.js.get('dtor'), lambda X, f, this, a: V(UNIT, []) if f.ret.k == 'void' else X.newsym(X.shape(f.ret), 'settings')))

    def body():
        a = sym_arg(X, fn.pt[0], 'configuration')
        r = invoke(X, fn, o, [a])
        X.check('construction never throws', z3.BoolVal(r.kind == 'ok'))
        if r.kind == 'ok':
            X.check('a new instance does not report that it has stopped', z3.Not(stopped()))
            X.check('a new instance has a root bus', getf(X, o, LAMP, froot).t != 0)
    X.paths = verify(X, body)
    return X


def tasks(prog):
    return [Task('LampPost::Start', start), Task('LampPost::Stop', stop), Task('LampPost constructor', construct)]
