"""P09: a message reaches every matching subscriber exactly once.

Contracts: Subscriber::Receive calls its callback once (or not at all without one) with the message;
Bus::Distribute calls Receive once for every registered subscriber whose pattern matches and Distribute
once for every child bus, with an equal message, and nothing on a stopped bus.  The recursive call is
replaced by the contract; by induction over the tree of buses every bus below is served exactly once."""
from bus import *

ASSUMPTIONS = ['callbacks return normally, are not null where a callback is set, and do not change the registries of a bus that is distributing',
               'each bus has one parent (CreateChildBus only ever registers a new bus: P11), registered participants are distinct (P12)']


def receive(how):
    def run(prog):
        X = engine(prog)
        count_calls(X)
        rec = the(prog, SUB + '::Receive', 1)
        cb = f_callback(X, SUB)

        def body():
            no_calls(X)
            m = X.newsym(X.M, 'message')
            if how in ('CreateSubscriber', 'CreateSubscriber without callback'):
                b = sym_this(X, BUS)
                fn = the(prog, 'lpv::createSubscriberWithCallback' if how == 'CreateSubscriber' else 'lpv::createSubscriber')
                a = [b] + [sym_arg(X, t, 'arg') for t in fn.pt[1:]]
                s = X.val(invoke(X, fn, None, a).v).t
                f = a[2].t if len(a) > 2 else None
                o = ObjLV(s, SUB, X.struct_shape(SUB))
            else:
                o = sym_this(X, SUB)
                f = getf(X, o, SUB, cb).t
                if how.startswith('Set'):
                    fn = the(prog, SUB + '::' + how, 1)
                    a = sym_arg(X, fn.pt[0], 'callback')
                    f = X.val(a).t
                    r = invoke(X, fn, o, [a])
                    X.check(how + ' never throws and calls nothing', z3.And(z3.BoolVal(r.kind == 'ok'), calls(X) == 0))
            if f is not None and how != 'Receive':
                X.assume(f != 0)
            st = X.st.copy()
            r = invoke(X, rec, o, [m] if rec.pt[0].k != 'ref' else [X.cell(m)])
            X.check('receiving a message never throws', r.kind == 'ok')
            X.check('receiving a message changes nothing', unchanged(X, st))
            if f is None:
                X.check('without callback nothing is invoked', calls(X) == 0)
                return
            want = z3.If(f == 0, 0, 1) if how == 'Receive' else z3.IntVal(1)
            X.check('the callback is invoked exactly once', calls(X) == want)
            g = X.st.ghost
            if 'call.f' in g:
                X.check('it is this subscriber\'s callback', z3.Implies(want == 1, g['call.f'] == f))
                arg = g.get('call.a0')
                if arg is None:
                    X.check('the callback receives the message', z3.BoolVal(False))
                elif arg.sort() == Msg:
                    X.check('the callback receives an equal message', z3.Implies(want == 1, arg == m.t))
                else:
                    X.check('the callback receives an equal payload', z3.Implies(want == 1, arg == m_load(m.t)))
        X.paths = verify(X, body)
        return X
    return Task('Receive after ' + how if how != 'Receive' else 'Subscriber::Receive', run)


def distribute(prog):
    X = engine(prog)
    count_calls(X)
    X.contracts.insert(0, ant_contract(X))
    fn = the(prog, BUS + '::Distribute', 1)
    o = sym_this(X, BUS)
    bus_invariant(X, o)
    subs0 = getf(X, o, BUS, f_list(X, SUB))
    ch0 = child(X, o)
    A = z3.ArraySort(Int, Int)
    idx = z3.Function('index_of', Int, Int)
    kof = z3.Function('name_of', Int, X.S.sort)
    j = z3.Const('j!x', Int)
    k = z3.Const('k!x', X.S.sort)
    X.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < subs0.t), idx(z3.Select(subs0.c[1], j)) == j), patterns=[z3.Select(subs0.c[1], j)]))
    X.assume(z3.ForAll([k], z3.Implies(z3.Select(ch0.c[0], k), z3.And(kof(z3.Select(ch0.c[1], k)) == k, z3.Select(ch0.c[1], k) != o.loc)), patterns=[z3.Select(ch0.c[1], k)]))
    X.map_axioms(ch0.c[0])
    st0 = X.st
    tf = [f for f in fields_by(X, PART, lambda s, t: s.k == 'str')]

    def topic(x):
        a = X.heap_at(st0, (PART, tf[0]), X.STR)[0]
        return z3.Select(a, x)

    def handed(X, fn, this, a, ghost, what):
        v = X.val(a[0])
        X.check('%s is given an equal message' % what, v.t == X.m, tag='hard')
        X.st.ghost[ghost] = z3.Store(X.st.ghost[ghost], this.loc, z3.simplify(z3.Select(X.st.ghost[ghost], this.loc) + 1))
        if fn.pt[0].k == 'ref' and not fn.pt[0].to.const and isinstance(a[0], E.LV):
            X.write(a[0], X.newsym(v.s, 'altered'))
        return V(UNIT, [])
    X.contracts.insert(0, Contract('Subscriber::Receive', SUB + '::Receive', lambda X, fn, this, a: handed(X, fn, this, a, 'recv', 'a subscriber')))
    X.contracts.insert(0, Contract('Bus::Distribute (child)', BUS + '::Distribute', lambda X, fn, this, a: handed(X, fn, this, a, 'dist', 'a child bus')))
    x = z3.Const('x!b', Int)

    def is_sub(x):
        return z3.And(idx(x) >= 0, idx(x) < subs0.t, z3.Select(subs0.c[1], idx(x)) == x, matches(X, topic(x), m_topic(X.m)))

    def is_child(x):
        return z3.And(z3.Select(ch0.c[0], kof(x)), z3.Select(ch0.c[1], kof(x)) == x)

    def invs(ctx):
        out = []
        qs = [(c, lambda st, c=c: st.cells[c].i) for c, _ in ctx.iters()] + [(c, lambda st, c=c: st.cells[c].t) for c, _ in ctx.ints()]
        r0, d0 = ctx.entry.ghost['recv'], ctx.entry.ghost['dist']
        for c, q in qs:
            for up in (True, False):
                nm = 'up to' if up else 'from'
                if 'recv' in ctx.mods.ghost:
                    out.append(('every matching subscriber %s %s has it once' % (nm, c), lambda st, q=q, up=up: z3.ForAll([x],
                               z3.Select(st.ghost['recv'], x) == z3.Select(r0, x) + z3.If(z3.And(is_sub(x), between(idx(x), q(ctx.entry), q(st), up)), 1, 0), patterns=[z3.Select(st.ghost['recv'], x)])))
                if 'dist' in ctx.mods.ghost:
                    out.append(('every child bus %s %s has it once' % (nm, c), lambda st, q=q, up=up: z3.ForAll([x],
                               z3.Select(st.ghost['dist'], x) == z3.Select(d0, x) + z3.If(z3.And(is_child(x), between(X.idxof(ch0.c[0], kof(x)), q(ctx.entry), q(st), up)), 1, 0), patterns=[z3.Select(st.ghost['dist'], x)])))
        return out
    X.invs.append(invs)

    def body():
        no_calls(X)
        X.st.ghost['recv'] = z3.K(Int, z3.IntVal(0))
        X.st.ghost['dist'] = z3.K(Int, z3.IntVal(0))
        m = X.newsym(X.M, 'message')
        X.m = m.t
        old = X.st.copy()
        on = getf(X, o, BUS, f_running(X)).t
        r = invoke(X, fn, o, [m] if fn.pt[0].k != 'ref' else [X.cell(m)])
        X.check('Distribute never throws', r.kind == 'ok')
        X.check('Distribute changes nothing', unchanged(X, old))
        X.check('Distribute invokes nothing but Receive', calls(X) == 0)
        rv, ds = X.st.ghost['recv'], X.st.ghost['dist']
        X.check('a running bus hands the message to every matching subscriber exactly once', z3.ForAll([x], z3.Implies(on, z3.Select(rv, x) == z3.If(is_sub(x), 1, 0))))
        X.check('a running bus hands the message to every child bus exactly once', z3.ForAll([x], z3.Implies(on, z3.Select(ds, x) == z3.If(is_child(x), 1, 0))))
        X.check('a stopped bus hands the message to nobody', z3.ForAll([x], z3.Implies(z3.Not(on), z3.And(z3.Select(rv, x) == 0, z3.Select(ds, x) == 0))))
    X.paths = verify(X, body)
    return X


def tasks(prog):
    return [receive(h) for h in ('Receive', 'CreateSubscriber', 'CreateSubscriber without callback', 'SetDatagramCallback', 'SetMessageCallback')] + [Task('Bus::Distribute', distribute)]
