"""P03: payload and message equality is structural.

RawDatagram::operator== is verified against its contract with the comparisons of children replaced by that
contract: Eq(a, b) is whether the trees below the nodes a and b are equal (structural induction)."""
from tree import *

MSG = 'lp::messages::Message'
ASSUMPTIONS = ['payloads are finite trees of live nodes (structural induction)', 'doubles are compared by the C++ operator ==, taken as a reflexive and symmetric relation (NaN excluded)',
               'a finite set included in one of the same size equals it']
Eq = z3.Function('equal_trees', Int, Int, Bool)


def setup(prog):
    X = engine(prog)

    def apply(X, fn, this, a):
        b = a[0]
        for x in (this, b):
            if not isinstance(x, ObjLV):
                raise Unsupported('comparison of a node that is no object')
            X.check('the compared node is alive', z3.And(x.loc > 0, x.loc < X.st.nxt))
        t = Eq(this.loc, b.loc)
        X.assume(t == Eq(b.loc, this.loc))
        return V(BOOL, [t])
    X.contracts.insert(0, Contract('RawDatagram::operator==: structural equality', RAW + '::operator==', apply))
    return X


def sym(a, b):
    return z3.And(Eq(a, b), Eq(b, a))


def equal1(X, n, m):
    """one unfolding of structural equality"""
    R = X.R
    i, k = z3.Const('i!eq', Int), z3.Const('k!eq', X.STR.sorts[0])
    L, M, D, F = lst(X, n), lst(X, m), dic(X, n), dic(X, m)
    v, w = value(X, n), value(X, m)
    vals = []
    for T in SCALARS.values():
        a, b = data_content(X, T, v), data_content(X, T, w)
        vals.append(z3.And(is_data(X, T, v), is_data(X, T, w), X.dpred('==', a, b) if T == 'double' else a == b))
    eqv = lambda a, b: Eq(a, b)
    return z3.And(kind(X, n) == kind(X, m),
                  z3.Implies(kind(X, n) == R.L, z3.And(L.t == M.t, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < L.t), eqv(z3.Select(L.c[1], i), z3.Select(M.c[1], i)))))),
                  z3.Implies(kind(X, n) == R.D, z3.And(z3.ForAll([k], z3.And(z3.Select(D.c[0], k) == z3.Select(F.c[0], k), z3.Implies(z3.Select(D.c[0], k), eqv(z3.Select(D.c[1], k), z3.Select(F.c[1], k))))))),
                  z3.Implies(kind(X, n) == R.V, z3.Or(vals)))


def facts(X, n, m):
    a, b = z3.Const('a!eq', Int), z3.Const('b!eq', Int)
    X.assume(z3.ForAll([a, b], Eq(a, b) == Eq(b, a), patterns=[Eq(a, b)]))
    for o in (n, m):
        d = data_content(X, SCALARS['Double'], value(X, o))
        X.assume(X.dpred('==', d, d))
    k = z3.Const('k!eq', X.STR.sorts[0])
    D, F = dic(X, n).c[0], dic(X, m).c[0]
    for P, Q in ((D, F), (F, D)):
        X.assume(z3.Implies(z3.And(X.card(P) == X.card(Q), z3.ForAll([k], z3.Implies(z3.Select(P, k), z3.Select(Q, k)))), z3.ForAll([k], z3.Select(P, k) == z3.Select(Q, k))))
    X.assume(z3.Implies(z3.ForAll([k], z3.Select(D, k) == z3.Select(F, k)), z3.And(D == F, X.card(D) == X.card(F))))


def invs(X, n, m):
    """children visited so far are equal"""
    def gen(ctx):
        out = []
        for pn, pos in positions(ctx):
            for (x, y) in ((n, m), (m, n)):
                def lf(st, pos=pos, x=x, y=y):
                    i = z3.Const('i!in', Int)
                    L, M = lst(X, x, st), lst(X, y, st)
                    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < pos(st), i < L.t), z3.And(i < M.t, Eq(z3.Select(L.c[1], i), z3.Select(M.c[1], i)))))

                def df(st, pos=pos, x=x, y=y):
                    k = z3.Const('k!in', X.STR.sorts[0])
                    D, F = dic(X, x, st), dic(X, y, st)
                    return z3.ForAll([k], z3.Implies(z3.And(z3.Select(D.c[0], k), X.idxof(D.c[0], k) < pos(st)), z3.And(z3.Select(F.c[0], k), Eq(z3.Select(D.c[1], k), z3.Select(F.c[1], k)))))
                for c, v in sorted(ctx.entry.cells.items(), key=lambda z: str(z[0])):
                    if isinstance(v, V) and v.s.k == 'bool' and c in ctx.mods.cells:
                        for q, f in (('items', lf), ('entries', df)):
                            out.append(('flag %s means that the %s up to %s are equal' % (c, q, pn), lambda st, c=c, f=f: st.cells[c].t == f(st)))
                out.append(('the items up to %s are equal' % pn, lf))
                out.append(('the entries up to %s are equal' % pn, df))
        return out
    return gen


def raw_eq(op, same):
    def run(prog):
        X = setup(prog)
        fn = the(prog, RAW + '::operator' + op, 1)
        n = node(X)
        m = n if same else node(X, 'other')
        facts(X, n.loc, m.loc)
        X.invs.append(invs(X, n.loc, m.loc))

        def body():
            old = X.st.copy()
            want = equal1(X, n.loc, m.loc) if op == '==' else z3.Not(Eq(n.loc, m.loc))
            X.map_axioms(dic(X, n.loc).c[0])
            X.map_axioms(dic(X, m.loc).c[0])
            r = invoke(X, fn, n, [m])
            X.check('node comparison never throws', r.kind == 'ok')
            if r.kind == 'ok':
                t = X.val(r.v).t
                X.check('node operator%s: yes only if structurally %s' % (op, 'equal' if op == '==' else 'different'), z3.Implies(t, want))
                X.check('node operator%s: yes if structurally %s' % (op, 'equal' if op == '==' else 'different'), z3.Implies(want, t))
            X.check('node comparison modifies nothing', unchanged(X, old))
        X.paths = verify(X, body)
        return X
    return Task('RawDatagram::operator%s%s' % (op, ' with itself' if same else ''), run)


def dg_eq(prog):
    X = setup(prog)
    fn = the(prog, DG + '::operator==', 1)

    def body():
        n, m = node(X), node(X, 'other')
        a, b = datagram(X, n.loc), datagram(X, m.loc)
        old = X.st.copy()
        r = invoke(X, fn, a, [b])
        X.check('datagram comparison never throws', r.kind == 'ok')
        if r.kind == 'ok':
            X.assume(Eq(n.loc, m.loc) == Eq(m.loc, n.loc))
            X.check('datagrams are equal exactly when their trees are', X.val(r.v).t == Eq(n.loc, m.loc))
            X.check('datagram comparison modifies nothing', z3.And(unchanged(X, old), X.val(a).c[0] == n.loc, X.val(b).c[0] == m.loc))
    X.paths = verify(X, body)
    return X


def msg_eq(prog):
    X = setup(prog)
    fn = the(prog, MSG + '::operator==', 1)
    import P02

    def body():
        n, m = node(X), node(X, 'other')
        a, b = P02.message(X, n.loc, 'a'), P02.message(X, m.loc, 'b')
        (f1, f2), _ = P02.msg_fields(X)
        va, vb = X.val(a).c, X.val(b).c
        old = X.st.copy()
        r = invoke(X, fn, a, [b])
        X.check('message comparison never throws', r.kind == 'ok')
        if r.kind == 'ok':
            X.assume(Eq(n.loc, m.loc) == Eq(m.loc, n.loc))
            X.check('messages are equal exactly when sender, topic and payload are',
                    X.val(r.v).t == z3.And(P02.mf(X, a, f1) == P02.mf(X, b, f1), P02.mf(X, a, f2) == P02.mf(X, b, f2), Eq(n.loc, m.loc)))
            X.check('message comparison modifies nothing', z3.And([unchanged(X, old)] + [x == y for x, y in zip(X.val(a).c + X.val(b).c, va + vb)]))
    X.paths = verify(X, body)
    return X


def tasks(prog):
    return [raw_eq('==', False), raw_eq('==', True), raw_eq('!=', False), Task('Datagram::operator==', dg_eq), Task('Message::operator==', msg_eq)]
