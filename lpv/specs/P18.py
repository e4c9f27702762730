"""P18: instances of a plugin template get the smallest free number, their own child bus and the caller's configuration.

Contracts: Bus::CreateChildBus as P11 proves it (a new bus of that name under the given parent, or an exception
for a name that is taken); the plugin's creation function is an unknown function whose calls are recorded."""
from bus import *

TPL, PI, PC = 'lp::PluginTemplate', 'lp::PluginInstance', 'lp::PluginConfiguration'
ASSUMPTIONS = ['fewer than 2^31 instances of a template are live', 'decimal texts of different numbers differ', 'the template has a creation function (it has not been unloaded)']


def instances(X, o, st=None):
    return getf(X, o, TPL, field_of(X, TPL, lambda s, t: s.k == 'map', 'instances'), st)


def f_instances(X):
    return field_of(X, TPL, lambda s, t: s.k == 'map', 'instances')


def identifier(X, o, cls):
    return X.val(X.inline(the(X.prog, 'lp::Identifiable::GetIdentifier'), ObjLV(o.loc, 'lp::Identifiable', X.struct_shape('lp::Identifiable')), [])).t


def config(X, v):
    """(identifier, bus, custom configuration) of a PluginConfiguration value"""
    s = X.struct_shape(PC)
    r = {}
    for n, t, _ in X.prog.recs[PC].fields:
        k = X.shape(t)
        o, fs = s.offs[(PC, n)]
        r[{'str': 'id', 'ptr': 'bus', 'abs': 'custom'}[k.k]] = v.c[o]
    if len(r) != 3:
        raise Unsupported('fields of ' + PC)
    return r['id'], r['bus'], r['custom']


def nth(X, name, k):
    return X.S.concat(name, X.lib.text(V(INT, [k])))


def create_child(X):
    def ap(X, fn, this, a):
        n = X.lib.sv(X.val(a[0]))
        g = X.st.ghost
        if X.branch(X.fresh(Bool, 'taken')):
            raise CxxThrow(EXC + 'DuplicateKeyException')
        b = X.alloc(BUS)
        g['bus.n'] = z3.simplify(g['bus.n'] + 1)
        g['bus'] = (this.loc, n, b)
        return V(X.shape(fn.ret), [b])
    return Contract('Bus::CreateChildBus: a new child bus of that name, or an exception', BUS + '::CreateChildBus', ap)


def numbered(X, o, name, n, st=None):
    """object invariant: the names in use are the template name with exactly the numbers 0 to n-1"""
    j = z3.Const('j!nb', Int)
    k = z3.Const('k!nb', X.STR.sorts[0])
    d = instances(X, o, st).c[0]
    t = nth(X, name, j)
    return [('the first n numbers are in use', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(d, t)), patterns=[t])),
            ('no other name is in use', z3.ForAll([k], z3.Implies(z3.Select(d, k), z3.And(numof(k) >= 0, numof(k) < n, k == nth(X, name, numof(k)))), patterns=[z3.Select(d, k)])),
            ('there are n instances', X.card(d) == n)]


numof = z3.Function('number_of', OS, Int)


def numbering(X, name):
    """decimal texts are injective"""
    j = z3.Const('j!nb', Int)
    t = nth(X, name, j)
    X.assume(z3.ForAll([j], numof(t) == j, patterns=[t]))


def instantiate(prog):
    X = engine(prog)
    X.contracts.insert(0, create_child(X))
    fn = the(prog, TPL + '::Instantiate', 2)
    o = sym_this(X, TPL)

    def unknown(X, t, a, f):
        g = X.st.ghost
        g['call.n'] = z3.simplify(g['call.n'] + 1)
        m = instances(X, o)
        r = X.fresh(Int, 'instance')
        X.assume(z3.And(r >= 0, r < X.st.nxt))
        g['call'] = (t, config(X, X.val(a[0])), r)
        return V(m.s.args[1] if hasattr(m.s, 'args') and m.s.args else X.shape(fn.ret), [r])
    X.hooks['unknown_call'] = unknown

    def invs(ctx):
        name = X.tname
        out = []
        for c, _ in ctx.ints():
            def f(st, c=c):
                j = z3.Const('j!in', Int)
                n = nth(X, name, j)
                return z3.And(st.cells[c].t >= 0, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < st.cells[c].t), z3.Select(instances(X, o, X.st0).c[0], n)), patterns=[n]))
            out.append(('every number below %s is in use' % c, f))
        return out
    X.invs.append(invs)
    X.measures.append(lambda ctx: [('numbers in use that are not tried yet (%s)' % (c,), lambda st, c=c: X.live - st.cells[c].t) for c, _ in ctx.ints()])

    def body():
        X.st.ghost.update({'bus.n': z3.IntVal(0), 'call.n': z3.IntVal(0)})
        X.st.ghost.pop('call', None)
        X.st.ghost.pop('bus', None)
        name = tname(X, o)
        X.tname = name
        cfg = X.newsym(X.struct_shape(PC), 'configuration')
        parent = sym_this(X, BUS, 'parent')
        m0 = instances(X, o)
        X.map_axioms(m0.c[0])
        live = X.newsym(INT, 'live').t
        X.live = live
        X.assume(z3.And(live >= 0, live < 2 ** 31 - 1))
        numbering(X, name)
        for _, p in numbered(X, o, name, live):
            X.assume(p)
        old = X.st.copy()
        X.st0 = old
        a = [X.cell(cfg) if fn.pt[0].k == 'ref' else cfg, V(X.shape(fn.pt[1].to if fn.pt[1].k == 'ref' else fn.pt[1]), [parent.loc])]
        a[1] = X.cell(a[1]) if fn.pt[1].k == 'ref' else a[1]
        f0 = creator(X, o)
        X.assume(f0 < 0)
        r = invoke(X, fn, o, a)
        m1 = instances(X, o)
        k = z3.Const('k!r', X.STR.sorts[0])
        keep = lambda x: z3.And(z3.Select(m1.c[0], x) == z3.Select(m0.c[0], x), z3.Implies(z3.Select(m0.c[0], x), z3.Select(m1.c[1], x) == z3.Select(m0.c[1], x)))
        g = X.st.ghost
        if r.kind != 'ok':
            X.check('Instantiate fails only when the name is taken on the bus', z3.BoolVal(X.prog.is_sub(r.exc.typ, EXC + 'DuplicateKeyException')))
            X.check('a failed Instantiate leaves the instances alone', z3.And(z3.ForAll([k], keep(k)), g['call.n'] == 0))
            return
        X.check('one child bus is created', g['bus.n'] == 1)
        X.check('the instance is created exactly once', g['call.n'] == 1)
        if 'bus' not in g or 'call' not in g:
            return
        p, n, b = g['bus']
        f, (ci, cb, cc), inst = g['call']
        X.check('the child bus is created under the given parent', p == parent.loc)
        X.check('the name is not in use', z3.Not(z3.Select(m0.c[0], n)))
        X.check('the name is the template name and the smallest free number', number(X, name, n, m0))
        X.check('the instance is created by the creation function of the template', f == f0)
        X.check('the instance gets the name', ci == n)
        X.check('the instance gets the new child bus', cb == b)
        X.check('the instance gets the custom configuration of the caller', cc == config(X, cfg)[2])
        X.check('the instance is registered under its name', z3.Implies(inst != 0, z3.And(z3.Select(m1.c[0], n), z3.Select(m1.c[1], n) == inst)))
        X.check('an instance that was not created is not registered', z3.Implies(inst == 0, z3.Not(z3.Select(m1.c[0], n))))
        X.check('the instance is returned', X.val(r.v).t == inst)
        X.check('other instances are unaffected', z3.ForAll([k], z3.Implies(k != n, keep(k))))
        for w, p in numbered(X, o, name, z3.If(inst != 0, live + 1, live)):
            X.check('afterwards ' + w, p)
        X.check('nothing else changes', unchanged_but(X, old, [(TPL, f_instances(X), o.loc)]))
    X.paths = verify(X, body)
    return X


def number(X, name, n, m0):
    def least(k):
        j = z3.Const('j!sm', Int)
        x = nth(X, name, j)
        return z3.And(k >= 0, n == nth(X, name, k), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), z3.Select(m0.c[0], x)), patterns=[x]))
    # the number is read off the term when it has the shape name + text(number)
    if n.num_args() == 2 and n.decl().eq(nth(X, name, z3.Const('probe', Int)).decl()):
        y = n.arg(1)
        if y.decl().name() == 'itoa10':
            return least(y.arg(0))
        for b, c in X.S.lits.items():
            if c.eq(y) and b.isdigit():
                k = z3.IntVal(int(b))
                X.assume(z3.Function('itoa10', Int, X.S.sort)(k) == c)
                return least(k)
    k = z3.Const('k!sm', Int)
    return z3.Exists([k], least(k))


def sub_cfg(X):
    fs = [(n, t) for n, t, _ in X.prog.recs[TPL].fields if t.k == 'rec' and t.user]
    return fs


def tname(X, o):
    """the name of the template: what it reports as its identifier; its configuration holds the same"""
    t = identifier(X, o, TPL)
    for n, ty in sub_cfg(X):
        s = X.shape(ty)
        v = getf(X, o, TPL, n)
        for fn_, ft, _ in X.prog.recs[strip_const(ty.s)].fields:
            if X.shape(ft).k == 'str':
                off, _ = s.offs[(strip_const(ty.s), fn_)]
                X.assume(v.c[off] == t)
    return t


def creator(X, o):
    for n, ty in sub_cfg(X):
        s = X.shape(ty)
        v = getf(X, o, TPL, n)
        for fn_, ft, _ in X.prog.recs[strip_const(ty.s)].fields:
            if X.shape(ft).k == 'fn':
                off, _ = s.offs[(strip_const(ty.s), fn_)]
                return v.c[off]
    raise Unsupported('creation function of a template')


def others(what):
    def run(prog):
        X = engine(prog)
        fn = the(prog, TPL + '::' + what)
        o = ObjLV(X.alloc(TPL), TPL, X.struct_shape(TPL)) if what == TPL.split('::')[-1] else sym_this(X, TPL)

        def skip(X, fn, this, a):
            return V(UNIT, [])
        for m in ('Stop', 'Deinitialize'):
            X.contracts.insert(0, Contract('PluginInstance::%s (see P19)' % m, PI + '::' + m, skip))
        k = z3.Const('k!r', X.STR.sorts[0])

        def body():
            m0 = instances(X, o)
            if what != TPL.split('::')[-1]:
                X.map_axioms(m0.c[0])
                X.assume(z3.ForAll([k], z3.Implies(z3.Select(m0.c[0], k), z3.And(z3.Select(m0.c[1], k) > 0, z3.Select(m0.c[1], k) < X.st.nxt)), patterns=[z3.Select(m0.c[1], k)]))
            r = invoke(X, fn, o, [sym_arg(X, t, 'arg') for t in fn.pt])
            m1 = instances(X, o)
            none = z3.ForAll([k], z3.Not(z3.Select(m1.c[0], k)))
            if r.kind != 'ok':
                X.check('%s does not fail' % what, z3.BoolVal(False))
            elif what == TPL.split('::')[-1]:
                X.check('a new template has no instances', none)
            else:
                X.check('%s keeps the instances or removes all of them' % what, z3.Or(none, m1.c[0] == m0.c[0]))
        X.paths = verify(X, body)
        return X
    return Task('PluginTemplate::' + what, run)


def tasks(prog):
    return [others(w) for w in ('PluginTemplate', 'Stop', 'Deinitialize', 'Unload')] + [Task('PluginTemplate::Instantiate', instantiate)]
