"""P22: processing the plugin list of a configuration file.

The document is an abstract datagram: entries of a list, members of a dictionary and texts are functions of it
(the contracts of the datagram operations, P04, and of the JSON reader, P06).  Requests to the plugin manager are
contracts with every outcome: an instance, no instance, or an exception.  Each request is checked, when it is made,
to be the one for the next entry with a type; the position reached so far is ghost state, tied to the loop by an
invariant."""
from bus import *
from P19 import quiet_log, registry
import P18

HARNESS_FLAGS = ['-D%s=lpv_%s' % (f, f) for f in ('dlopen', 'dlsym', 'dlclose', 'dlerror')]
LAMP, PM, PI, PC, TPL = 'lp::LampPost', 'lp::PluginManager', 'lp::PluginInstance', 'lp::PluginConfiguration', 'lp::PluginTemplate'
ASSUMPTIONS = ['the file holds a JSON document whose plugin list, if there is one, is a list', 'Initialize and Start of the plugins return normally', 'fewer than 2^31 plugins are listed']
TRUSTED = ['reading a whole file through a stream yields its text']
Int, Bool = z3.IntSort(), z3.BoolSort()
d_has, d_key = z3.Function('d_has', Dgm, OS, Bool), z3.Function('d_key', Dgm, OS, Dgm)
d_item, d_count = z3.Function('d_item', Dgm, Int, Dgm), z3.Function('d_count', Dgm, Int)
d_text, d_istext = z3.Function('d_text', Dgm, OS), z3.Function('d_istext', Dgm, Bool)
d_none = z3.Function('d_isempty', Dgm, Bool)   # the node is empty (null, an empty list or an empty dictionary of the document, P06)
d_doc, f_text, f_open = z3.Function('d_doc', OS, Dgm), z3.Function('file_text', OS, OS), z3.Function('file_opens', OS, Bool)


def documents(X):
    """contracts of reading a datagram; a member that is missing is added empty when it is asked for"""
    X.added = []

    def sub(X, d, k):
        return z3.If(d_has(d, k), d_key(d, k), d_empty)

    def index(X, fn, this, a):
        d, v = X.val(this).t, X.val(a[0])
        if v.s.k == 'int':
            if not X.branch(z3.And(v.t >= 0, v.t < d_count(d))):
                raise CxxThrow(EXC + 'IndexOutOfBoundsException')
            X.seen_item(v.t)
            return V(X.D, [d_item(d, v.t)])
        k = X.lib.sv(v)
        if not X.entails(d_has(d, k)):
            X.added.append(k)
        return V(X.D, [sub(X, d, k)])

    def has(X, fn, this, a):
        d, k = X.val(this).t, X.lib.sv(X.val(a[0]))
        if any(not X.entails(k != y) for y in X.added):
            raise Unsupported('KeyExists of a member that may have been added')
        return V(BOOL, [d_has(d, k)])

    def count(X, fn, this, a):
        d = X.val(this).t
        if X.branch(d_none(d)):
            raise CxxThrow(EXC + 'InvalidOperationException')
        v = V(X.shape(fn.ret), [d_count(d)])
        X.assume(z3.And(v.t >= 0, v.t < 1 << 31))
        return v

    def text(X, fn, this, a):
        d = X.val(this).t
        if a:
            raise Unsupported('path lookup')
        if not X.branch(d_istext(d)):
            X.st.ghost['owed'] = z3.BoolVal(True)
            raise CxxThrow(EXC + 'InvalidOperationException')
        return V(X.STR, [d_text(d)])

    def doc(X, fn, this, a):
        return V(X.D, [d_doc(X.lib.sv(X.val(a[0])))])

    def out(X, fn, this, a):
        return X.lib.out(a[0], X.fresh(X.S.sort, 'shown'))
    C = X.contracts.insert
    C(0, Contract('Datagram::operator[] (P04): member or entry', DG + '::operator[]', index))
    C(0, Contract('Datagram::KeyExists (P04)', DG + '::KeyExists', has))
    C(0, Contract('Datagram::GetCount (P04)', DG + '::GetCount', count))
    C(0, Contract('Datagram::IsEmpty (P04)', DG + '::IsEmpty', lambda X, fn, this, a: V(BOOL, [d_none(X.val(this).t)])))
    C(0, Contract('Datagram: its text, or an exception', lambda f: f.cls is not None and strip_const(f.cls.s) == DG and (f.n.startswith('operator basic_string') or f.n.startswith('operator std::') or f.n == 'Get' and f.ret.n == 'std::string' or sig0(f) == DG + '::Get<std::string>'), text))
    C(0, Contract('Datagram::DeserializeFromJson (P06): the document of the text', DG + '::DeserializeFromJson', doc))
    C(0, Contract('printing of a datagram', lambda f: f.n == 'operator<<' and len(f.pt) == 2 and DG in f.pt[1].s, out))


def files(X):
    def make(X, ty, vs):
        if 'ifstream' in ty.n:
            if not vs:
                raise Unsupported('file opened later')
            return V(X.STREAM, [f_text(X.lib.sv(vs[0])), z3.IntVal(10)])
        return V(X.STREAM, [X.lib.sv(vs[0]) if vs and (isinstance(vs[0], E.CStr) or isinstance(vs[0], V) and vs[0].s.k == 'str') else X.S.lit([]), z3.IntVal(10)])
    X.hooks['stream_ctor'] = make

    def rdbuf(X, fn, this, a, fr, e):
        v = X.val(this)
        X.write(this, V(v.s, [X.S.lit([]), v.c[1]]))
        return V(X.STR, [v.t])
    X.lib.ext['std::basic_ifstream::rdbuf'] = rdbuf
    for n in ('is_open', 'good', 'operator!'):
        X.lib.ext['std::basic_ifstream::' + n] = lambda X, fn, this, a, fr, e: V(BOOL, [X.fresh(Bool, 'open')])
    X.lib.ext['std::basic_ifstream::close'] = lambda X, fn, this, a, fr, e: V(UNIT, [])


def process(prog):
    X = engine(prog)
    quiet_log(X)
    documents(X)
    files(X)
    X.UNROLL = 0
    fn = the(prog, LAMP + '::ReadConfigurationFile', 1)
    o = sym_this(X, LAMP)
    L = lambda s: X.S.lit(s.encode())
    PLUGINS, TYPE, CONF = L('plugins'), L('type'), L('configuration')

    def reported(X, fn, this, a):
        X.st.ghost['owed'] = z3.BoolVal(False)
        return V(X.shape(fn.ret), []) if fn.ret.k == 'void' else X.newsym(X.shape(fn.ret), 'log')
    X.contracts.insert(0, Contract('Log::Error, Log::Warning: report', ['lp::log::Log::Error', 'lp::log::Log::Warning'], reported))

    def settle(when):
        g = X.st.ghost
        X.check('an instance that was created is initialised once and started once ' + when, z3.Implies(g['instance'] != 0, z3.And(g['inits'] == 1, g['starts'] == 1)), tag='hard')
        X.check('an entry whose plugin cannot be created is reported ' + when, z3.Not(g['owed']), tag='hard')

    def request(X, fn, this, a):
        g = X.st.ghost
        settle('before the next one')
        t = X.lib.sv(X.val(a[0]))
        cfg = P18.config(X, X.val(a[1]))
        p = facts(g['pos'])
        X.check('an instance is requested only for a listed entry with a type', p < X.count, tag='hard')
        X.check('the instance is of the type of the next entry with a type', t == d_text(d_key(X.entry(p), TYPE)), tag='hard')
        X.check('the request carries the configuration of that entry', cfg[2] == sub(X.entry(p), CONF), tag='hard')
        g['pos'] = z3.simplify(p + 1)
        g['inits'] = g['starts'] = z3.IntVal(0)
        r = X.fresh(Int, 'instance')
        X.assume(z3.And(r >= 0, r < X.st.nxt))
        g['owed'] = z3.BoolVal(True)
        g['instance'] = z3.IntVal(0)
        if X.branch(X.fresh(Bool, 'fails')):
            raise CxxThrow(EXC + 'DuplicateKeyException')
        g['instance'] = r
        g['owed'] = r == 0
        return V(X.shape(fn.ret), [r])
    X.contracts.insert(0, Contract('PluginManager::InstantiateTemplate: an instance, none, or an exception', PM + '::InstantiateTemplate', request))

    def step(name, what):
        def ap(X, fn, this, a):
            g = X.st.ghost
            X.check('only the instance just created is ' + what, z3.And(this.loc == g['instance'], g['instance'] != 0), tag='hard')
            if name == 'starts':
                X.check('an instance is started only after it is initialised', g['inits'] == 1, tag='hard')
            g[name] = z3.simplify(g[name] + 1)
            return V(UNIT, [])
        return ap
    X.contracts.insert(0, Contract('PluginInstance::Initialize (virtual)', PI + '::Initialize', step('inits', 'initialised')))
    X.contracts.insert(0, Contract('PluginInstance::Start (P19)', PI + '::Start', step('starts', 'started')))
    sub = lambda d, k: z3.If(d_has(d, k), d_key(d, k), d_empty)
    nxt = z3.Function('next_typed', Int, Int)

    typed = lambda p: z3.And(d_has(X.entry(p), TYPE), d_istext(d_key(X.entry(p), TYPE)))

    def facts(p):
        """next_typed(p) is the position of the first entry with a type from p on, or the number of entries"""
        n = nxt(p)
        X.assume(z3.Implies(z3.And(p >= 0, p <= X.count), z3.And(n >= p, n <= X.count, z3.Implies(n < X.count, typed(n)))))
        return n

    def seen_item(q):
        p = X.st.ghost['pos']
        n = facts(p)
        X.assume(z3.Implies(z3.And(p >= 0, q >= p, typed(q)), n <= q))
    X.seen_item = seen_item

    def invs(ctx):
        out = []
        for c, _ in ctx.ints():
            q = lambda st, c=c: st.cells[c].t
            out.append(('the entries before %s are processed' % c, lambda st, q=q: z3.And(st.ghost['pos'] >= 0, st.ghost['pos'] <= q(st), q(st) <= facts(st.ghost['pos']))))
            out.append(('%s is at most the number of entries' % c, lambda st, q=q: z3.And(q(st) >= 0, q(st) <= X.count)))
        out.append(('created instances are initialised and started', lambda st: z3.Implies(st.ghost['instance'] != 0, z3.And(st.ghost['inits'] == 1, st.ghost['starts'] == 1))))
        out.append(('failures are reported', lambda st: z3.Not(st.ghost['owed'])))
        return out
    X.invs.append(invs)

    def body():
        g = X.st.ghost
        name = sym_arg(X, fn.pt[0], 'file')
        doc = d_doc(f_text(X.val(name).t))
        lst = d_key(doc, PLUGINS)
        X.assume(d_none(lst) == (d_count(lst) == 0))
        X.count = z3.If(d_has(doc, PLUGINS), d_count(lst), 0)
        X.assume(d_none(d_empty))
        X.entry = lambda p: d_item(lst, p)
        g.update({'pos': z3.IntVal(0), 'instance': z3.IntVal(0), 'inits': z3.IntVal(0), 'starts': z3.IntVal(0), 'owed': z3.BoolVal(False)})
        X.assume(d_count(lst) >= 0)
        r = invoke(X, fn, o, [name])
        g = X.st.ghost
        X.check('no entry ends the processing with an exception', z3.BoolVal(r.kind == 'ok'))
        settle('at the end')
        X.check('no entry with a type is left out', facts(g['pos']) == X.count)
    X.paths = verify(X, body)
    return X


def instantiate(prog):
    """PluginManager::InstantiateTemplate"""
    X = engine(prog)
    quiet_log(X)
    fn = the(prog, PM + '::InstantiateTemplate', 2)
    o = sym_this(X, PM)
    f, m0 = registry(X, o, PM, 'templates')
    vs = m0.s.b
    at = [vs.offs[(vs.cls, n)][0] for n, t, _ in X.prog.recs[vs.cls].fields if t.n == 'std::shared_ptr']
    if len(at) != 1:
        raise Unsupported('fields of ' + vs.cls)
    tpl = lambda k: z3.Select(m0.c[1 + at[0]], k)
    k = z3.Const('k!t', X.S.sort)
    X.assume(z3.ForAll([k], z3.Implies(z3.Select(m0.c[0], k), z3.And(tpl(k) > 0, tpl(k) < X.st.nxt)), patterns=[tpl(k)]))

    def call(X, fn, this, a):
        g = X.st.ghost
        g['n'] = z3.simplify(g['n'] + 1)
        r = X.fresh(Int, 'instance')
        X.assume(z3.And(r >= 0, r < X.st.nxt))
        g['call'] = (this.loc, P18.config(X, X.val(a[0])), X.val(a[1]).t, r)
        return V(X.shape(fn.ret), [r])
    X.contracts.insert(0, Contract('PluginTemplate::Instantiate (P18)', TPL + '::Instantiate', call))
    fcfg = [(n, X.shape(t)) for n, t, _ in X.prog.recs[PM].fields if X.shape(t).k == 'struct' and t.user and any(X.shape(t2).k == 'ptr' for _, t2, _ in X.prog.recs[strip_const(t.s)].fields)]
    if len(fcfg) != 1:
        raise Unsupported('configuration of the plugin manager')

    def default():
        n, s = fcfg[0]
        v = getf(X, o, PM, n)
        for c, fld, sh in s.fields:
            if sh.k == 'ptr':
                return v.c[s.offs[(c, fld)][0]]

    def body():
        g = X.st.ghost
        g['n'] = z3.IntVal(0)
        g.pop('call', None)
        t = sym_arg(X, fn.pt[0], 'type')
        cfg = X.newsym(X.struct_shape(PC), 'configuration')
        a = X.cell(cfg) if fn.pt[1].k == 'ref' else cfg
        id_, bus, custom = P18.config(X, cfg)
        key = X.val(t).t
        there = z3.Select(m0.c[0], key)
        dflt = default()
        old = X.st.copy()
        r = invoke(X, fn, o, [t, a])
        g = X.st.ghost
        X.check('InstantiateTemplate itself never throws', z3.BoolVal(r.kind == 'ok'))
        if r.kind != 'ok':
            return
        X.check('one instance is requested exactly when the type is registered', g['n'] == z3.If(there, 1, 0))
        X.check('no other state changes', unchanged(X, old))
        if 'call' not in g:
            X.check('no instance is returned for an unknown type', X.val(r.v).t == 0)
            return
        loc, (ci, cb, cc), b, inst = g['call']
        X.check('the instance is requested of the template registered for the type', loc == tpl(key))
        X.check('the request carries the configuration of the caller', cc == custom)
        X.check('the instance is attached to the given bus, or the bus of the manager', b == z3.If(bus != 0, bus, dflt))
        X.check('the instance is returned', X.val(r.v).t == inst)
    X.paths = verify(X, body)
    return X


def tasks(prog):
    return [Task('LampPost::ReadConfigurationFile', process), Task('PluginManager::InstantiateTemplate', instantiate)]
