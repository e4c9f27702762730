"""P11: child bus registry (contracts of CreateChildBus, GetChildBus, GetName)."""
from bus import *

ASSUMPTIONS = ['other threads change the child registry of a bus only by creating further children, and only while holding its lock (P14)']


def name_of(X, o):
    return X.val(X.inline(the(X.prog, 'lp::Identifiable::GetIdentifier'), ObjLV(o.loc, 'lp::Identifiable', X.struct_shape('lp::Identifiable')), [])).t


def start(prog):
    X = engine(prog)
    o = sym_this(X, BUS)
    bus_invariant(X, o)
    return X, o


class Phases:
    """the registry of bus o as this thread sees it: whenever it takes a lock of the bus, other threads may have
    created further children since; between two such moments only this thread changes the registry"""
    def __init__(self, X, o):
        self.X, self.o, self.on = X, o, False

        def lock(X, l):
            if not self.on or l[0] != 'h' or l[1] != BUS or any(h[0] == 'h' and h[1] == BUS for h in X.st.held):
                return
            f = f_children(X)
            m = child(X, o)
            n0 = X.st.nxt
            X.st.nxt = X.fresh(Int, 'nxt')
            X.assume(X.st.nxt >= n0)
            w = X.newsym(m.s, 'registry')
            k = z3.Const('k!ph', m.c[0].sort().domain())
            X.assume(z3.ForAll([k], z3.Implies(z3.Select(m.c[0], k), z3.And(z3.Select(w.c[0], k), z3.Select(w.c[1], k) == z3.Select(m.c[1], k))), patterns=[z3.Select(m.c[0], k), z3.Select(w.c[0], k)]))
            X.ghosting += 1
            X.hwrite(BUS, f, o.loc, w)
            X.ghosting -= 1
            bus_invariant(X, o)
            X.map_axioms(w.c[0])
            g = X.st.ghost['phases']
            X.st.ghost['phases'] = g[:-1] + ((g[-1][0], m), (w, None))
        X.hooks['lock'] = lock

    def start(self):
        self.on = True
        self.X.st.ghost['phases'] = ((child(self.X, self.o), None),)

    def end(self):
        """[(registry at the beginning, registry at the end)] of the phases"""
        self.on = False
        g = self.X.st.ghost['phases']
        return list(g[:-1]) + [(g[-1][0], child(self.X, self.o))]


def same_reg(a, b):
    return z3.And([x == y for x, y in zip(a.c, b.c)])


def create(prog):
    X, o = start(prog)
    ph = Phases(X, o)
    fn = the(prog, BUS + '::CreateChildBus', 1)
    calls = []

    def unknown(X, t, a, f):
        X.st.ghost['pub'] = X.st.ghost['pub'] + 1
        X.st.ghost['pub.f'] = t
        X.st.ghost['pub.m'] = X.val(a[0]).t
        return V(UNIT, [])
    X.hooks['unknown_call'] = unknown

    def body():
        a = sym_arg(X, fn.pt[0], 'name')
        n = X.val(a).t
        empty = n == X.S.lit(b'')
        X.note = {'length of name': X.S.len(n)}
        old = X.st.copy()
        pf = getf(X, o, BUS, f_publish(X), old).t
        ph.start()
        r = invoke(X, fn, o, [a])
        phases = ph.end()
        used = z3.Select(phases[-1][0].c[0], n)
        if r.kind != 'ok':
            X.check('CreateChildBus fails only for an empty or used name or on a detached bus', z3.Or(empty, used, pf == 0))
            X.check('an empty name is reported as a missing argument', z3.Implies(empty, z3.BoolVal(X.prog.is_sub(r.exc.typ, EXC + 'ArgumentNullException'))))
            X.check('a used name is reported as a duplicate key', z3.Implies(z3.And(used, z3.Not(empty)), z3.BoolVal(X.prog.is_sub(r.exc.typ, EXC + 'DuplicateKeyException'))))
            X.check('a failed CreateChildBus changes nothing', z3.And([same_reg(b, e) for b, e in phases] + [unchanged_but(X, old, [(BUS, f_children(X), o.loc)])]))
            return
        ch = X.val(r.v).t
        X.check('CreateChildBus rejects an empty name', z3.Not(empty))
        adds = []
        for i, (b, e) in enumerate(phases):
            rest = [same_reg(x, y) for j, (x, y) in enumerate(phases) if j != i]
            adds.append(z3.And([z3.Not(z3.Select(b.c[0], n)), e.c[0] == z3.Store(b.c[0], n, z3.BoolVal(True)), z3.Select(e.c[1], n) == ch, others(X, b, e, n)] + rest))
        X.check('the name is unused when the child is registered', z3.Or([z3.And(z3.Not(z3.Select(b.c[0], n)), z3.Select(e.c[0], n)) for b, e in phases]))
        X.check('the child is registered under an unused name at one moment and no other child changes', z3.Or(adds))
        X.check('the child is a new object', z3.And(ch >= old.nxt, ch < X.st.nxt))
        X.check('nothing else changes', unchanged_but(X, old, [(BUS, f_children(X), o.loc)]))
        cho = ObjLV(ch, BUS, X.struct_shape(BUS))
        X.check('the child has the name', name_of(X, cho) == n)
        X.check('the child is started', getf(X, ch, BUS, f_running(X)).t)
        cc = child(X, ch)
        k = z3.Const('k!e', cc.c[0].sort().domain())
        X.check('the child has no children', z3.ForAll([k], z3.Not(z3.Select(cc.c[0], k))))
        for cls in (SUB, PUB):
            X.check('the child has no ' + cls.split('::')[-1], getf(X, ch, BUS, f_list(X, cls)).t == 0)
        g = invoke(X, the(X.prog, BUS + '::GetChildBus', 1), o, [V(X.STR, [n])])
        X.check('a later lookup returns the child', X.val(g.v).t == ch if g.kind == 'ok' else z3.BoolVal(False))
        # publishing on the child reaches the parent's publishing function, once and unchanged
        m = X.newsym(X.M, 'message')
        X.st.ghost['pub'] = z3.IntVal(0)
        pub = the(X.prog, BUS + '::Publish', 1)
        p = invoke(X, pub, cho, [m])
        X.check('publishing on the child publishes on the parent', z3.And(X.st.ghost['pub'] == 1, X.st.ghost['pub.f'] == pf, X.st.ghost['pub.m'] == m.t)
                if p.kind == 'ok' and 'pub.f' in X.st.ghost else z3.BoolVal(False))
    X.paths = verify(X, body)
    return X


def others(X, a, b, n):
    k = z3.Const('k!o', a.c[0].sort().domain())
    return z3.ForAll([k], z3.Implies(z3.And(z3.Select(a.c[0], k), k != n), z3.Select(a.c[1], k) == z3.Select(b.c[1], k)))


def lookup(prog):
    X, o = start(prog)
    ph = Phases(X, o)
    fn = the(prog, BUS + '::GetChildBus', 1)

    def body():
        a = sym_arg(X, fn.pt[0], 'name')
        n = X.val(a).t
        old = X.st.copy()
        ph.start()
        r = invoke(X, fn, o, [a])
        phases = ph.end()
        c0 = phases[-1][0]
        known = z3.Select(c0.c[0], n)
        if r.kind == 'ok':
            X.check('GetChildBus returns the registered child', z3.And(known, X.val(r.v).t == z3.Select(c0.c[1], n)))
        else:
            X.check('GetChildBus fails only for unknown names', z3.Not(known))
            X.check('an unknown name is reported as such', z3.BoolVal(X.prog.is_sub(r.exc.typ, EXC + 'KeyNotFoundException')))
        X.check('GetChildBus changes nothing', z3.And([same_reg(b, e) for b, e in phases] + [unchanged_but(X, old, [(BUS, f_children(X), o.loc)])]))
    X.paths = verify(X, body)
    return X


def root(prog):
    """a root bus under construction: named, without children, not running"""
    X = engine(prog)
    fn = the(prog, BUS + '::Bus', 1)
    o = ObjLV(X.alloc(BUS), BUS, X.struct_shape(BUS))

    def body():
        a = sym_arg(X, fn.pt[0], 'name')
        n = X.val(a).t
        r = invoke(X, fn, o, [a])
        empty = n == X.S.lit(b'')
        if r.kind != 'ok':
            X.check('a bus needs a name', z3.And(empty, z3.BoolVal(X.prog.is_sub(r.exc.typ, EXC + 'ArgumentNullException'))))
            return
        X.check('a bus without a name is rejected', z3.Not(empty))
        X.check('a bus has the name it was created with', name_of(X, o) == n)
        cc = child(X, o)
        k = z3.Const('k!e', cc.c[0].sort().domain())
        X.check('a new bus has no children', z3.ForAll([k], z3.Not(z3.Select(cc.c[0], k))))
    X.paths = verify(X, body)
    return X


def tasks(prog):
    return [Task('CreateChildBus', create), Task('GetChildBus', lookup), Task('Bus(name)', root)]
