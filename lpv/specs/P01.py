"""P01: serialising and deserialising a message yields an equal message.

Both directions are verified against one description of the encoding (which table encodes which node), with
the recursive calls replaced by their contracts; the trees of the children are compared by identity of the
abstract tree (structural induction)."""
from flat import *
import P02

MSG = 'lp::messages::Message'
SER, DES = RAW + '::SerializeToStructure', RAW + '::DeserializeFromStructure'
ASSUMPTIONS = ['payloads are finite trees of live nodes (structural induction)', 'a double may come back with the other sign of zero (equal in C++)']


def prepare(prog):
    X = engine(prog)
    F = Fb(X)

    def ser(X, fn, this, a):
        if not isinstance(this, ObjLV):
            raise Unsupported('serialisation of a node that is no object')
        X.check('the serialised node is alive', z3.And(this.loc > 0, this.loc < X.st.nxt, dynof(X, this.loc) == X.clsids[RAW]))
        F.flat('a child table')
        b = a[0]
        X.check('children go into the same buffer', z3.BoolVal(X.builder is None or (hasattr(b, 'key') and b.key() == X.builder)))
        o = F.fresh('table')
        X.assume(T(o) == A(this.loc))
        return V(INT, [o])

    def des(X, fn, this, a):
        o = X.val(a[0]).t
        X.check('the read table exists', o > 0)
        n0, n1 = grow(X)
        r = fresh_node(X, n0, n1)
        X.assume(A(r) == T(o))
        X.assume(wf(X, r))
        freeze(X, n0, n1)
        X.st.ghost['fb.read'] = X.st.ghost.get('fb.read', ()) + ((r, X.st.copy()),)
        return V(X.shape(fn.ret), [r])
    X.builder = None
    X.contracts[:0] = [Contract('SerializeToStructure: a table encoding the tree; nothing changes', SER, ser), Contract('DeserializeFromStructure: a fresh node holding the encoded tree; nothing else changes', DES, des),
                       copy_contract(X)] + raw_bytes(X)
    write_guard(X)
    return X, F


def ser_invs(X, F, n, start):
    def gen(ctx):
        out = []
        L, D = lst(X, n, start), dic(X, n, start)
        i = z3.Const('i!si', Int)
        for c in sorted(ctx.mods.cells, key=str):
            v = ctx.entry.cells.get(c)
            if not (isinstance(v, V) and v.s.k == 'seq' and v.s.a.k == 'int'):
                continue
            for pn, pos in positions(ctx):
                def q(st, f, c=c):
                    w = st.cells[c]
                    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < w.t), z3.And(z3.Select(w.c[1], i) > 0, f(z3.Select(w.c[1], i)))), patterns=[z3.Select(w.c[1], i)])
                out.append(('vector %s has an entry per child up to %s' % (c, pn), lambda st, pos=pos, c=c: st.cells[c].t == pos(st)))
            out.append(('vector %s holds the tables of the items' % c, lambda st, q=q: q(st, lambda x: T(x) == A(z3.Select(L.c[1], i)))))
            out.append(('vector %s holds the keys' % c, lambda st, q=q: q(st, lambda x: F.text(x) == X.keyat(D.c[0], i))))
            out.append(('vector %s holds the tables of the entries' % c, lambda st, q=q: q(st, lambda x: T(x) == A(z3.Select(D.c[1], X.keyat(D.c[0], i))))))
        return out
    return gen


def serialize(prog):
    X, F = prepare(prog)
    fn = the(prog, SER, 1)
    n = node(X)
    start = X.st.copy()
    X.invs.append(lambda ctx: ser_invs(X, F, n.loc, start)(ctx))

    def body():
        F.reset()
        no_frozen(X)
        b = X.cell(V(UNIT, []), UNIT)
        X.builder = b.key()
        L, D = lst(X, n.loc), dic(X, n.loc)
        X.assume(z3.And(L.t < 1 << 31, X.card(D.c[0]) < 1 << 31))
        old = X.st.copy()
        r = invoke(X, fn, n, [b])
        X.check('serialising never throws', r.kind == 'ok')
        if r.kind != 'ok':
            return
        o = X.val(r.v).t
        X.check('serialising yields a table', o > 0)
        for what, c in F.encodes(o, n.loc, old):
            X.check('the table encodes %s' % what, c)
        X.check('serialising changes nothing', unchanged(X, old))
        X.check('the table is finished', z3.BoolVal(not X.st.ghost['fb.nested']))
    X.paths = verify(X, body)
    return X


def same_value01(X, v, w, sv, sw):
    cs = []
    for T_ in SCALARS.values():
        a, b = data_content(X, T_, v, sv), data_content(X, T_, w, sw)
        cs.append(z3.And(is_data(X, T_, v, sv), is_data(X, T_, w, sw), z3.Or(a == b, X.dpred('==', a, b)) if T_ == 'double' else a == b))
    return z3.Or(cs)


def deserialize(prog):
    X, F = prepare(prog)
    fn = the(prog, DES, 1)
    n = node(X, 'source')
    start = X.st.copy()
    X.invs.append(lambda ctx: build_invs(X, n.loc, start)(ctx))

    def body():
        F.reset()
        no_frozen(X)
        o = X.fresh(Int, 'table')
        X.assume(o > 0)
        L, D = lst(X, n.loc), dic(X, n.loc)
        X.assume(z3.And(L.t < 1 << 31, X.card(D.c[0]) < 1 << 31))
        for what, c in F.encodes(o, n.loc, X.st):
            X.assume(c)
        old = X.st.copy()
        r = invoke(X, fn, None, [V(X.shape(fn.pt[0]), [o])])
        X.check('deserialising never throws', r.kind == 'ok')
        if r.kind != 'ok':
            return
        m = X.val(r.v).t
        R = X.R
        X.check('deserialising yields a new node', z3.And(m >= old.nxt, m < X.st.nxt))
        sv = value(X, n.loc, old)
        rest = iso1(X, m, n.loc, X.st, old)
        for what, K in (('an empty node', R.E), ('a list', R.L), ('a dictionary', R.D)):
            X.check('deserialising %s yields the encoded content' % what, z3.Implies(kind(X, n.loc, old) == K, rest))
        X.check('deserialising a value yields the encoded value', z3.Implies(kind(X, n.loc, old) == R.V, z3.And(kind(X, m) == R.V, same_value01(X, value(X, m), sv, X.st, old))))
        X.check('deserialising: all children are new', children(X, m, lambda c: z3.And(c >= old.nxt, c < X.st.nxt, frozen(X, c))))
        X.check('deserialising changes nothing that existed', unchanged(X, old))
        X.check('deserialising yields a well formed node', wf(X, m))
    X.paths = verify(X, body)
    return X


def msg_table(F, o):
    t = 'lp::schemas::FBMessage'
    return [F.acc(t, o, a) for a in ('sender', 'topic', 'datagram')]


def to_bytes(prog):
    X, F = prepare(prog)
    fn = the(prog, MSG + '::SerializeToBytes', 0)

    def body():
        F.reset()
        n = node(X)
        no_frozen(X)
        m = P02.message(X, n.loc, 'msg')
        (f1, f2), _ = P02.msg_fields(X)
        v0 = X.val(m).c
        s, t = P02.mf(X, m, f1), P02.mf(X, m, f2)
        old = X.st.copy()
        r = invoke(X, fn, m, [])
        X.check('serialising a message never throws', r.kind == 'ok')
        if r.kind != 'ok':
            return
        b = X.val(r.v).t
        X.check('serialising a message yields bytes', z3.And(b >= old.nxt, b < X.st.nxt))
        o = X.hread('$raw', 'root', b, INT).t
        X.check('the bytes hold a message', o > 0)
        ts, tt, td = msg_table(F, o)
        X.check('the bytes hold the sender', z3.And(ts > 0, F.text(ts) == s))
        X.check('the bytes hold the topic', z3.And(tt > 0, F.text(tt) == t))
        X.check('the bytes hold the payload', z3.And(td > 0, T(td) == A(n.loc)))
        X.check('serialising a message changes nothing', z3.And([unchanged(X, old)] + [x == y for x, y in zip(X.val(m).c, v0)]))
    X.paths = verify(X, body)
    return X


def from_bytes(prog):
    X, F = prepare(prog)
    fn = the(prog, MSG + '::Deserialize', 1)

    def body():
        F.reset()
        no_frozen(X)
        b = sym_this(X, RB, 'bytes').loc
        o = X.hread('$raw', 'root', b, INT).t
        X.assume(o > 0)
        ts, tt, td = msg_table(F, o)
        X.assume(z3.And(ts > 0, tt > 0, td > 0))
        old = X.st.copy()
        r = invoke(X, fn, None, [V(X.shape(fn.pt[0]), [b])])
        X.check('deserialising a message never throws', r.kind == 'ok')
        if r.kind != 'ok':
            return
        (f1, f2), fd = P02.msg_fields(X)
        n = P02.mf(X, r.v, fd)
        X.check('the message has the sender that was written', P02.mf(X, r.v, f1) == F.text(ts))
        X.check('the message has the topic that was written', P02.mf(X, r.v, f2) == F.text(tt))
        X.check('the message has the payload that was written', z3.Or([z3.And(n > 0, A(m) == T(td), z3.Or(n == m, iso1(X, n, m, X.st, at))) for m, at in X.st.ghost.get('fb.read', ())]))
        X.check('deserialising a message changes nothing', unchanged(X, old))
    X.paths = verify(X, body)
    return X


def tasks(prog):
    return [Task('RawDatagram::SerializeToStructure', serialize), Task('RawDatagram::DeserializeFromStructure', deserialize),
            Task('Message::SerializeToBytes', to_bytes), Task('Message::Deserialize', from_bytes)]
