"""P14: lock discipline of the bus.

Every operation of Bus (and the templates it instantiates) is executed symbolically; every access to one of
the guarded collections of a bus that existed before the operation yields the obligation that the accessing
thread holds the lock belonging to it: a mutex field of the same bus, the same one at every access.  Which
mutex belongs to which collection is read off the code (the one held at most of its accesses).  Operations
on other buses are used by contract: they take only locks of those buses."""
from bus import *
from collections import Counter

HARNESS_SAN = 'thread'
ASSUMPTIONS = ['locks of different buses are different objects; a bus is not its own descendant (P11)',
               'callbacks may throw but do not call operations of the bus they are called from',
               'memory allocation does not fail']


def guarded(X):
    """the collections of a bus: its maps and sequences"""
    return [n for n, t, _ in X.prog.recs[BUS].fields if X.shape(t).k in ('map', 'seq')]


def operations(prog):
    r = []
    for f in prog.defs.values():
        if f.js.get('implicit') or f.body is None and not f.inits:
            continue
        if f.cls is not None and strip_const(f.cls.s) == BUS and not f.js.get('ctor') and f.lam is None and not is_template(f):
            r.append(f)
        elif f.sig.startswith('lpv::create'):
            r.append(f)
    return sorted(r, key=lambda f: f.sig)


def is_template(f):
    return '<' in f.sig.split('(')[0]


def engine14(prog):
    X = engine(prog)
    X.recs = []
    X.op = None
    X.own = None
    X.owner = {}

    def unknown(X, t, a, f):
        if X.choose([None, None]):
            raise CxxThrow('std::exception')
        return V(UNIT, [])
    X.hooks['unknown_call'] = unknown

    coll = set(guarded(X))

    def access(X, key, loc, how):
        if key[0] == BUS and key[1] in coll and not X.quiet:
            b = E.lin(loc)[0]
            if b is not None and z3.is_const(b) and b.decl().name() == 'nxt0' and not (X.own is not None and loc.eq(X.own)):
                return      # an object this operation is creating
            X.recs.append((X.op, key[1], how, loc, X.st.copy(), X.where))
    X.hooks['access'] = access

    def lock(X, l):
        if l[0] != 'h':
            return
        for h in X.st.held:
            if h[0] == 'h' and h[1:3] == l[1:3]:
                X.check('%s does not take the lock %s twice' % (X.op, l[2]), h[3] != l[3], tag='hard')
    X.hooks['lock'] = lock
    o = sym_this(X, BUS)
    bus_invariant(X, o)
    ch = child(X, o)
    k = z3.Const('k!x', X.S.sort)
    X.assume(z3.ForAll([k], z3.Implies(z3.Select(ch.c[0], k), z3.Select(ch.c[1], k) != o.loc), patterns=[z3.Select(ch.c[1], k)]))
    X.map_axioms(ch.c[0])
    X.o = o
    st0 = X.st

    def own_bus(name):
        """the drain loop and the distribution on this bus, called by another operation: their own obligations
        are generated separately; the caller must not hold a lock of a collection"""
        def ap(X, fn, this, a):
            if this is not None and z3.simplify(this.loc == o.loc).eq(z3.BoolVal(True)):
                for h in X.st.held:
                    if h[0] == 'h' and h[1] == BUS and h[2] in X.owner.values():
                        X.check('%s calls %s without holding the lock of a collection' % (X.op, name), h[3] != o.loc, tag='hard')
                return V(UNIT, [])
            return None
        return ap

    def other(name):
        mine = own_bus(name)

        def ap(X, fn, this, a):
            if name in ('Run', 'Distribute') and X.op != name:
                r = mine(X, fn, this, a)
                if r is not None:
                    return r
            if this is not None and z3.simplify(this.loc == o.loc).eq(z3.BoolVal(True)):
                return X.inline(fn, this, a)
            if name == 'Start' or E.lin(this.loc)[0] is not None and E.lin(this.loc)[0].decl().name() == 'nxt0':
                return X.inline(fn, this, a)
            # another bus: it only touches its own collections, under its own locks
            X.check('%s calls %s on another bus' % (X.op, name), this.loc != o.loc, tag='hard')
            return V(UNIT, []) if fn.ret.k == 'void' else X.newsym(X.shape(fn.ret), 'r')
        return Contract('Bus::%s of another bus' % name, BUS + '::' + name, ap)
    for nm in ('Distribute', 'Run', 'Detach', 'Stop', 'Start', 'Publish'):
        X.contracts.insert(0, other(nm))
    X.contracts.insert(0, ant_contract(X))
    X.hooks['wait'] = lambda X, fd, this, a, fr, e: wait(X, fd, a)
    X.hooks['atomic_load'] = lambda X, v: X.newsym(v.s, 'atomic')
    return X


def wait(X, fd, a):
    for x in a:
        v = X.val(x)
        if isinstance(v, V) and v.s.k == 'fn':
            X.call_fn_value(v, [], None)
    return V(BOOL, [X.fresh(Bool, 'woken')]) if fd.ret.k == 'bool' else X.newsym(X.shape(fd.ret), 'status')


def opname(fn):
    return fn.sig.split('(')[0].split('::')[-1]


def run_op(X, fn):
    """one operation on the bus X.o, from any state"""
    o, name = X.o, opname(fn)

    def body():
        X.op = name
        free = fn.sig.startswith('lpv::')
        ts = fn.pt[1 if free else 0:]
        a = [sym_arg(X, t, 'arg') for t in ts]
        for x in a:
            v = X.val(x)
            if isinstance(v, V) and v.s.k == 'ptr':
                X.assume(v.t > 0)
        r = invoke(X, fn, None, [o] + a) if free else invoke(X, fn, o, a)
        X.check('%s gives back every lock (%s)' % (name, r.kind), z3.BoolVal(len(X.st.held) == 0), tag='hard')
    return verify(X, body)


def run_root(X):
    """publishing through the function a root bus installs for itself"""
    def body():
        X.op = 'Publish on a root bus'
        fn = the(X.prog, BUS + '::Bus', 1)
        b = ObjLV(X.alloc(BUS), BUS, X.struct_shape(BUS))
        X.own = None
        if invoke(X, fn, b, [sym_arg(X, fn.pt[0], 'name')]).kind != 'ok':
            raise E.Infeasible()
        X.own = b.loc
        r = invoke(X, the(X.prog, BUS + '::Publish', 1), b, [X.newsym(X.M, 'message')])
        X.own = None
        X.check('%s gives back every lock (%s)' % (X.op, r.kind), z3.BoolVal(len(X.st.held) == 0), tag='hard')
    return verify(X, body)


def votes(X):
    r = {}
    for opn, f, how, loc, st, w in X.recs:
        c = r.setdefault(f, Counter())
        for l in {l[2] for l in st.held if l[0] == 'h' and l[1] == BUS}:
            c[l] += 1
    return r


def owners(prog, ops):
    """the lock that belongs to a collection: the mutex of the same bus held at most of its accesses"""
    X = engine14(prog)
    total = {}
    for f in ops + [None]:
        X.recs = []
        try:
            run_root(X) if f is None else run_op(X, f)
        except Unsupported:
            pass
        for k, c in votes(X).items():
            total.setdefault(k, Counter()).update(c)
    return {f: (sorted(c.items(), key=lambda x: (-x[1], x[0]))[0][0] if c else None) for f, c in total.items()}


def task(fn, own, slow):
    def run(prog):
        X = engine14(prog)
        X.owner = own
        X.paths = run_root(X) if fn is None else run_op(X, fn)
        for f, c in votes(X).items():
            if f not in own:
                own[f] = sorted(c.items(), key=lambda x: (-x[1], x[0]))[0][0] if c else None
        for opn, f, how, loc, st, w in X.recs:
            X.st = st
            m = own.get(f)
            ok = [h[3] == loc for h in st.held if h[0] == 'h' and h[1] == BUS and h[2] == m]
            X.where = w
            try:
                X.check('%s: %s of %s with its lock held' % (opn, how, f), z3.Or(ok) if ok else z3.BoolVal(False), tag='hard')
            except E.Infeasible:
                pass
        return X
    return Task('publishing on a root bus' if fn is None else opname(fn) + '/%d' % len(fn.pt), run)


SLOW = ('Run', 'Start', 'Distribute', 'Detach', '~Bus')


def consumers(prog):
    """the operations of an action consumer: its open requests are only touched under one and the same lock of the
    consumer, which is not held while callbacks run"""
    import P13
    X = P13.prepare(prog)
    X.paths = []
    maps = [n for n, t, _ in prog.recs[CONS].fields if X.shape(t).k in ('map', 'seq')]
    ptrs = [n for n, t, _ in prog.recs[CONS].fields if X.shape(t).k == 'ptr']
    recs = []
    guard = X.hooks['access']
    ops = [f for f in prog.defs.values() if f.cls is not None and strip_const(f.cls.s) == CONS and f.body is not None and not f.js.get('implicit') and not f.js.get('ctor') and not f.js.get('dtor') and f.lam is None]
    ops.sort(key=lambda f: f.sig)

    def held(o):
        return [h for h in X.st.held if h[0] == 'h' and h[1] == CONS and z3.is_true(z3.simplify(h[3] == o.loc))]

    def own(X, fn, this, a):
        if not X.stack or sig0(X.now) == sig0(fn):
            return X.inline(fn, this, a)
        fact(X, '%s calls %s without holding the lock of the open requests' % (opname(X.now), opname(fn)), not held(X.o))
        return V(UNIT, []) if fn.ret.k == 'void' else X.newsym(X.shape(fn.ret), 'r')
    X.contracts.insert(0, Contract('operations of the same consumer: own obligations', lambda f: f in ops and len(X.stack) > 0, own))
    for fn in ops:
        name = opname(fn)

        def body():
            P13.reset(X)
            X.hooks['access'] = guard
            o = X.o = sym_this(X, CONS, 'consumer')
            X.now = fn
            P13.some_requests(X, o)
            n = P13.node(X)
            for p in ptrs:
                X.assume(getf(X, o, CONS, p).t > 0)

            def access(X, key, loc, how):
                guard(X, key, loc, how)
                if key[0] == CONS and key[1] in maps and not X.quiet:
                    recs.append((name, key[1], how, tuple(h[2] for h in held(o)), X.st.copy(), X.where))

            def lock(X, l):
                if l[0] == 'h' and l[1] == CONS:
                    fact(X, '%s does not take the lock %s twice' % (name, l[2]), all(h[2] != l[2] for h in held(o)))

            def unknown(X, t, a, f):
                fact(X, '%s invokes callbacks without holding the lock of the open requests' % name, not held(o))
                if X.choose([None, None]):
                    raise CxxThrow('std::exception')
                return V(UNIT, [])
            X.hooks['access'], X.hooks['lock'], X.hooks['unknown_call'] = access, lock, unknown
            X.hooks['wait'] = lambda X, fd, this, a, fr, e: wait(X, fd, a)
            a = [P13.dg_arg(X, fn, i, n.loc) if strip_const((t.to if t.k == 'ref' else t).s) == P13.DG else sym_arg(X, t, 'arg') for i, t in enumerate(fn.pt)]
            r = invoke(X, fn, o, a)
            fact(X, '%s gives back every lock (%s)' % (name, r.kind), len(X.st.held) == 0)
        X.paths = X.paths + verify(X, body)
    votes = Counter(l for nm, f, how, ls, st, w in recs for l in set(ls))
    m = sorted(votes.items(), key=lambda x: (-x[1], x[0]))[0][0] if votes else None
    for name, f, how, ls, st, w in recs:
        X.st, X.where = st, w
        try:
            fact(X, '%s: %s of %s with its lock held' % (name, how, f), m in ls)
        except E.Infeasible:
            pass
    return X


def tasks(prog):
    ops = operations(prog)
    if not ops:
        raise Unsupported('no bus operations')
    own = owners(prog, [f for f in ops if opname(f) not in SLOW])
    return [Task('ActionConsumer', consumers)] + [task(f, own, opname(f) in SLOW) for f in sorted(ops, key=lambda f: (opname(f) not in SLOW, f.sig))] + [task(None, own, False)]
