"""P10: every published message is distributed exactly once, in the order of publication.

Publishing side: the root bus's publishing function appends exactly the message to the queue while holding
the queue's lock; Bus::Publish and Publisher::Publish call the publishing function exactly once with the
message (children get their parent's function: P11).

Draining side (rely/guarantee over the queue's lock): ghost P is the sequence of all publications, `n` how
many entered the queue so far, `done` how many were distributed.  Whenever the lock is taken or given back,
other threads may have appended any number of publications.  Run must hand P[done] to Distribute next, and
always keep: the queue holds exactly P[done..n) when no batch is in flight."""
from bus import *

ASSUMPTIONS = ['other threads only append to the queue, under its lock (that is what the publishing side guarantees; P14 proves the lock discipline)',
               'condition_variable::wait_for evaluates its predicate with the lock held and returns; spurious wake-ups and timeouts included']


def queue_locks(prog):
    """the mutex fields held whenever the publishing function of a root bus writes the queue"""
    X = engine(prog)
    q = (BUS, f_queue(X))
    seen = []

    def access(X, key, loc, how):
        if key == q and how == 'write' and watch[0]:
            seen.append({l[2] for l in X.st.held if l[0] == 'h' and l[1] == BUS and l[3].eq(loc)})
    watch = [False]
    X.hooks['access'] = access

    def body():
        o, ok = new_root(X)
        watch[0] = True
        m = X.newsym(X.M, 'message')
        try:
            invoke(X, the(prog, BUS + '::Publish', 1), o, [m])
        finally:
            watch[0] = False
    X.explore(body)
    return set.intersection(*seen) if seen else set()


def new_root(X):
    """a root bus after construction, with an arbitrary queue"""
    fn = the(X.prog, BUS + '::Bus', 1)
    o = ObjLV(X.alloc(BUS), BUS, X.struct_shape(BUS))
    a = sym_arg(X, fn.pt[0], 'name')
    r = invoke(X, fn, o, [a])
    if r.kind != 'ok':
        raise E.Infeasible()
    f = f_queue(X)
    sh = getf(X, o, BUS, f).s
    X.ghosting += 1
    X.hwrite(BUS, f, o.loc, X.newsym(sh, 'queue'))
    X.ghosting -= 1
    return o, X.val(a).t


def publish(prog):
    X = engine(prog)
    count_calls(X)
    fn = the(prog, BUS + '::Publish', 1)

    def body():
        no_calls(X)
        o, name = new_root(X)
        f = f_queue(X)
        old = X.st.copy()
        q0 = getf(X, o, BUS, f)
        m = X.newsym(X.M, 'message')
        r = invoke(X, fn, o, [m] if fn.pt[0].k != 'ref' else [X.cell(m)])
        q1 = getf(X, o, BUS, f)
        X.check('publishing never throws', r.kind == 'ok', tag='hard')
        X.check('the publication is appended to the queue, once', appended(X, q0, q1, m.t), tag='hard')
        X.check('publishing changes nothing else', unchanged_but(X, old, [(BUS, f, o.loc)]))
        X.check('publishing calls nothing else', calls(X) == 0)
        X.check('publishing leaves no lock behind', z3.BoolVal(len(X.st.held) == 0))
    X.paths = verify(X, body)
    return X


def appended(X, q0, q1, m):
    i = z3.Const('i!app', Int)
    return z3.And(q1.t == q0.t + 1, z3.Select(q1.c[1], q0.t) == m,
                  z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < q0.t), z3.Select(q1.c[1], i) == z3.Select(q0.c[1], i))))


def forward(prog):
    """a bus with any publishing function calls it exactly once with the message"""
    X = engine(prog)
    count_calls(X)
    fn = the(prog, BUS + '::Publish', 1)

    def body():
        no_calls(X)
        o = sym_this(X, BUS)
        f = getf(X, o, BUS, f_publish(X)).t
        m = X.newsym(X.M, 'message')
        old = X.st.copy()
        r = invoke(X, fn, o, [m] if fn.pt[0].k != 'ref' else [X.cell(m)])
        X.check('publishing never throws', r.kind == 'ok')
        X.check('a bus publishes through its publishing function once', z3.And(calls(X) == z3.If(f == 0, 0, 1)))
        if 'call.f' in X.st.ghost:
            X.check('it is that function and that message', z3.And(X.st.ghost['call.f'] == f, X.st.ghost['call.a0'] == m.t))
        X.check('publishing changes nothing on the bus', unchanged(X, old))
    X.paths = verify(X, body)
    return X


def publisher(prog):
    X = engine(prog)
    count_calls(X)
    mk = the(prog, 'lpv::createPublisher')
    pub = the(prog, PUB + '::Publish', 1)

    def body():
        no_calls(X)
        b = sym_this(X, BUS)
        X.assume(getf(X, b, BUS, f_publish(X)).t != 0)
        name = X.val(X.inline(the(prog, 'lp::Identifiable::GetIdentifier'), ObjLV(b.loc, 'lp::Identifiable', X.struct_shape('lp::Identifiable')), [])).t
        t = sym_arg(X, mk.pt[1], 'topic')
        p = X.val(invoke(X, mk, None, [b, t]).v).t
        X.check('creating a publisher publishes nothing', calls(X) == 0)
        f = getf(X, b, BUS, f_publish(X)).t
        d = X.newsym(X.D, 'payload')
        r = invoke(X, pub, ObjLV(p, PUB, X.struct_shape(PUB)), [d] if pub.pt[0].k != 'ref' else [X.cell(d)])
        X.check('publishing never throws', r.kind == 'ok')
        X.check('a publisher publishes exactly once', calls(X) == 1)
        g = X.st.ghost
        if 'call.f' in g:
            X.check('a publisher publishes on its bus', g['call.f'] == f)
            m = g['call.a0']
            X.check('the message carries the bus, the topic and the payload', z3.And(m_sender(m) == name, m_topic(m) == X.val(t).t, m_load(m) == d.t))
    X.paths = verify(X, body)
    return X


def drain(prog):
    locks = queue_locks(prog)
    X = engine(prog)
    count_calls(X)
    fn = the(prog, BUS + '::Run', 0)
    o = sym_this(X, BUS)
    f = f_queue(X)
    P = z3.Const('publications', z3.ArraySort(Int, Msg))
    i = z3.Const('i!q', Int)

    def held_queue(X):
        return any(l[0] == 'h' and l[1] == BUS and l[2] in locks and l[3].eq(o.loc) for l in X.st.held)

    def others(X):
        """any number of publications enter the queue"""
        q = getf(X, o, BUS, f)
        k = X.fresh(Int, 'k')
        n = X.st.ghost['n']
        new = X.newsym(q.s, 'queue')
        X.assume(z3.And(k >= 0, new.t == q.t + k))
        X.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < q.t), z3.Select(new.c[1], i) == z3.Select(q.c[1], i)), patterns=[z3.Select(new.c[1], i)]))
        X.assume(z3.ForAll([i], z3.Implies(z3.And(i >= q.t, i < new.t), z3.Select(new.c[1], i) == z3.Select(P, n + i - q.t)), patterns=[z3.Select(new.c[1], i)]))
        X.ghosting += 1
        X.hwrite(BUS, f, o.loc, new)
        X.ghosting -= 1
        X.st.ghost['n'] = z3.simplify(n + k)

    def lock(X, l):
        if l[0] == 'h' and l[1] == BUS and not held_queue(X):
            others(X)

    def unlock(X, l):
        # called while the lock is still listed as held
        if l[0] == 'h' and l[1] == BUS and l[2] in locks:
            others(X)
    X.hooks['lock'], X.hooks['unlock'] = lock, unlock

    def access(X, key, loc, how):
        if key == (BUS, f) and not held_queue(X):
            X.check('Run touches the queue only with its lock held', z3.BoolVal(False), tag='hard')
    X.hooks['access'] = access
    X.hooks['atomic_load'] = lambda X, v: X.newsym(v.s, 'atomic')

    def wait(X, fd, this, a, fr, e):
        lam = [x for x in a if isinstance(X.val(x), V) and X.val(x).s.k == 'fn']
        if lam:
            X.call_fn_value(X.val(lam[-1]), [], None)
        if fd.ret.k == 'bool':
            return V(BOOL, [X.fresh(Bool, 'woken')])
        return X.newsym(X.shape(fd.ret), 'status')
    X.hooks['wait'] = wait

    def dist(X, fd, this, a):
        v = X.val(a[0])
        X.check('Run distributes on its own bus', this.loc == o.loc, tag='hard')
        X.check('the next message distributed is the next one published', z3.And(v.t == z3.Select(P, X.st.ghost['done']), X.st.ghost['done'] < X.st.ghost['n']), tag='hard')
        X.st.ghost['done'] = z3.simplify(X.st.ghost['done'] + 1)
        return V(UNIT, [])
    X.contracts.insert(0, Contract('Bus::Distribute', BUS + '::Distribute', dist))

    def seqs(ctx):
        return [(c, v) for c, v in sorted(ctx.entry.cells.items(), key=lambda x: str(x[0])) if isinstance(v, V) and v.s.k == 'seq' and v.s.a.k == 'abs' and v.s.a.sorts[0] == Msg]

    def qv(st):
        return getf(X, o, BUS, f, st)

    def invs(ctx):
        out = []
        if 'done' not in ctx.mods.ghost and 'n' not in ctx.mods.ghost:
            return out
        D = lambda st: st.ghost['done']
        N = lambda st: st.ghost['n']
        out.append(('nothing is distributed before it is published', lambda st: z3.And(D(st) <= N(st), D(st) >= 0)))
        pend = [(None, lambda st: z3.IntVal(0))]
        its = [(c, lambda st, c=c: st.cells[c].i) for c, _ in ctx.iters()] + [(c, lambda st, c=c: st.cells[c].t) for c, _ in ctx.ints()]
        for c, v in seqs(ctx):
            size = lambda st, c=c: st.cells[c].t
            if c in ctx.mods.cells:
                pend.append((c, size))
                out.append(('batch %s holds the next messages' % (c,), lambda st, c=c: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < st.cells[c].t), z3.Select(st.cells[c].c[1], i) == z3.Select(P, D(st) + i)))))
            for ci, qi in its:
                pend.append((str(c) + ' from ' + str(ci), lambda st, c=c, qi=qi: st.cells[c].t - qi(st)))
                out.append(('batch %s from %s holds the next messages' % (c, ci), lambda st, c=c, qi=qi: z3.ForAll([i], z3.Implies(z3.And(i >= qi(st), i < st.cells[c].t), z3.Select(st.cells[c].c[1], i) == z3.Select(P, D(st) + i - qi(st))), patterns=[z3.Select(st.cells[c].c[1], i)])))
        for nm, p in pend:
            out.append(('the queue has what is not taken (%s)' % nm, lambda st, p=p: qv(st).t == N(st) - D(st) - p(st)))
            out.append(('the queue holds the publications that follow (%s)' % nm, lambda st, p=p: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < qv(st).t), z3.Select(qv(st).c[1], i) == z3.Select(P, D(st) + p(st) + i)), patterns=[z3.Select(qv(st).c[1], i)])))
        return out
    X.invs.append(invs)

    def body():
        no_calls(X)
        n = X.fresh(Int, 'n')
        X.st.ghost['n'], X.st.ghost['done'] = n, z3.IntVal(0)
        q = getf(X, o, BUS, f)
        X.assume(z3.And(n >= 0, q.t == n))
        X.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < q.t), z3.Select(q.c[1], i) == z3.Select(P, i)), patterns=[z3.Select(q.c[1], i)]))
        old = X.st.copy()
        r = invoke(X, fn, o, [])
        X.check('Run never throws', r.kind == 'ok', tag='hard')
        q1 = getf(X, o, BUS, f)
        D, N = X.st.ghost['done'], X.st.ghost['n']
        X.check('messages that are not distributed are still queued, all of them', q1.t == N - D, tag='hard')
        X.check('they are queued in order', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < q1.t), z3.Select(q1.c[1], i) == z3.Select(P, D + i))), tag='hard')
        X.check('Run changes nothing but the queue', unchanged_but(X, old, [(BUS, f, o.loc)]))
        X.check('Run leaves no lock behind', z3.BoolVal(len(X.st.held) == 0))
    X.paths = verify(X, body)
    return X


def start(prog):
    X = engine(prog)
    fn = the(prog, BUS + '::Start', 0)
    run = f_running(X)

    def ran(X, fd, this, a):
        X.check('Run starts on this bus with the running flag set', z3.And(this.loc == X.o.loc, getf(X, X.o, BUS, run).t), tag='hard')
        X.st.ghost['runs'] = z3.simplify(X.st.ghost['runs'] + 1)
        return V(UNIT, [])
    X.contracts.insert(0, Contract('Bus::Run', BUS + '::Run', ran))

    def body(kind):
        X.st.ghost['runs'] = z3.IntVal(0)
        c = the(prog, BUS + '::Bus', 1 if kind == 'root' else 2)
        o = X.o = ObjLV(X.alloc(BUS), BUS, X.struct_shape(BUS))
        if invoke(X, c, o, [sym_arg(X, t, 'arg') for t in c.pt]).kind != 'ok':
            raise E.Infeasible()
        X.check('construction does not start the bus', X.st.ghost['runs'] == 0)
        old = X.st.copy()
        r = invoke(X, fn, o, [])
        X.check('Start never throws', r.kind == 'ok')
        X.check('a started bus is running', getf(X, o, BUS, run).t)
        X.check('only a root bus drains the queue, once', X.st.ghost['runs'] == (1 if kind == 'root' else 0))
        X.check('Start changes nothing else', unchanged_but(X, old, [(BUS, run, o.loc)]))
    X.paths = verify(X, lambda: body('root')) + verify(X, lambda: body('child'))
    return X


def tasks(prog):
    return [Task('root bus: Publish', publish), Task('Bus::Publish', forward), Task('Publisher::Publish', publisher), Task('Bus::Run', drain), Task('Bus::Start', start)]
