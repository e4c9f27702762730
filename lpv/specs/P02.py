"""P02: copies of payloads are structurally identical and share no node with their source.

RawDatagram::Copy is verified against its contract with the recursive calls replaced by that contract
(structural induction over the finite tree); the datagram and message operations that copy are verified
with the same contract at their calls."""
from tree import *

MSG = 'lp::messages::Message'
ASSUMPTIONS = ['payloads are finite trees of live nodes (structural induction)', 'value objects are immutable (P04: no operation changes an existing one), so sharing one is not observable']


def copy(prog):
    X = engine(prog)
    X.contracts.insert(0, copy_contract(X))
    write_guard(X)
    fn = the(prog, RAW + '::Copy', 0)
    holder = {}
    X.invs.append(lambda ctx: build_invs(X, holder['n'], holder['s'])(ctx))
    o = node(X)
    no_frozen(X)
    holder['n'], holder['s'] = o.loc, X.st.copy()

    def body():
        old = X.st.copy()
        r = invoke(X, fn, o, [])
        X.check('copying never throws', r.kind == 'ok')
        if r.kind != 'ok':
            return
        n = X.val(r.v).t
        X.check('the copy is a new node', z3.And(n >= old.nxt, n < X.st.nxt))
        X.check('the copy has the same kind and content', iso1(X, n, o.loc, X.st, old))
        X.check('all children of the copy are new', children(X, n, lambda c: z3.And(c >= old.nxt, c < X.st.nxt)))
        X.check('all children of the copy are finished copies', children(X, n, lambda c: frozen(X, c)))
        X.check('copying changes nothing that existed', unchanged(X, old))
        X.check('the copy is well formed', wf(X, n))
    X.paths = verify(X, body)
    return X


def fresh_copy(X, name, n, src, old):
    """handle n is an independent copy of the old node src"""
    X.check(name + ': a new node', z3.And(n >= old.nxt, n < X.st.nxt))
    X.check(name + ': its children are finished copies', children(X, n, lambda c: frozen(X, c)))
    X.check(name + ': structurally identical', iso1(X, n, src, X.st, old))
    X.check(name + ': shares no node with the source', children(X, n, lambda c: c >= old.nxt))
    X.check(name + ': changes nothing that existed', unchanged(X, old))


def prepare(prog):
    X = engine(prog)
    X.contracts.insert(0, copy_contract(X))
    write_guard(X)
    return X


def is_copy_ctor(f, cls):
    return f.js.get('copyctor') or (len(f.pt) == 1 and f.pt[0].k == 'ref' and strip_const(f.pt[0].to.s) == cls and not f.pt[0].rv)


def dg_copy(prog):
    X = prepare(prog)
    fn = the(prog, DG + '::Datagram', 1, lambda f: is_copy_ctor(f, DG))

    def body():
        o = node(X)
        no_frozen(X)
        src = datagram(X, o.loc)
        s = X.struct_shape(DG)
        c = X.cell(X.newsym(s, 'made'), s)
        old = X.st.copy()
        r = invoke(X, fn, c, [src])
        X.check('copying a datagram never throws', r.kind == 'ok')
        if r.kind == 'ok':
            fresh_copy(X, 'copy of a datagram', X.val(c).c[0], o.loc, old)
            X.check('copy of a datagram: the source handle is unchanged', X.val(src).c[0] == o.loc)
    X.paths = verify(X, body)
    return X


def dg_assign(prog):
    X = prepare(prog)
    fn = the(prog, DG + '::operator=', 1, lambda f: f.pt[0].k == 'ref' and strip_const(f.pt[0].to.s) == DG and not f.pt[0].rv)

    def body():
        o = node(X)
        t = node(X, 'target')
        no_frozen(X)
        src, dst = datagram(X, o.loc), datagram(X, t.loc)
        old = X.st.copy()
        r = invoke(X, fn, dst, [src])
        X.check('assigning a datagram never throws', r.kind == 'ok')
        if r.kind == 'ok':
            n = X.val(dst).c[0]
            X.check('assignment: the target is structurally identical to the source', iso1(X, n, o.loc, X.st, old))
            X.check('assignment: the target shares no node with the source', z3.And(z3.Or(n == t.loc, n >= old.nxt), children(X, n, lambda c: c >= old.nxt)))
            X.check('assignment: nothing else changes', unchanged_but_nodes(X, old, [t.loc]))
            X.check('assignment: the source handle is unchanged', X.val(src).c[0] == o.loc)
            X.check('assignment: the target is well formed', wf(X, n))
            X.check('assignment: yields the target', r.v is dst or (isinstance(r.v, E.LV) and r.v.key() == dst.key()))
    X.paths = verify(X, body)
    return X


def msg_fields(X):
    fs = X.prog.recs[MSG].fields
    strs = [n for n, t, _ in fs if X.shape(t).k == 'str']
    dgs = [n for n, t, _ in fs if X.shape(t).k == 'struct']
    if len(strs) != 2 or len(dgs) != 1:
        raise Unsupported('fields of ' + MSG)
    return strs, dgs[0]


def message(X, loc, hint='msg'):
    """a message whose payload is node loc"""
    s = X.struct_shape(MSG)
    v = X.newsym(s, hint)
    _, d = msg_fields(X)
    o, _ = s.offs[(MSG, d)]
    c = list(v.c)
    c[o] = loc
    return X.cell(V(s, c), s)


def mf(X, m, f):
    s = X.struct_shape(MSG)
    o, fs = s.offs[(MSG, f)]
    return X.val(m).c[o]


def msg_get(prog):
    X = prepare(prog)
    fn = the(prog, MSG + '::GetDatagram', 0)

    def body():
        o = node(X)
        no_frozen(X)
        m = message(X, o.loc)
        old = X.st.copy()
        v0 = X.val(m).c
        r = invoke(X, fn, m, [])
        X.check('reading the payload never throws', r.kind == 'ok')
        if r.kind == 'ok':
            fresh_copy(X, 'payload of a message', handle_node(X, r.v), o.loc, old)
            X.check('reading the payload does not change the message', z3.And([a == b for a, b in zip(v0, X.val(m).c)]))
    X.paths = verify(X, body)
    return X


def msg_make(prog):
    X = prepare(prog)
    fn = the(prog, MSG + '::Message', 3)

    def body():
        o = node(X)
        no_frozen(X)
        s = X.struct_shape(MSG)
        made = X.cell(X.newsym(s, 'made'), s)
        a = [X.newsym(X.STR, 'sender'), X.newsym(X.STR, 'topic')]
        d = datagram(X, o.loc)
        old = X.st.copy()
        r = invoke(X, fn, made, [X.cell(x) for x in a] + [d])
        X.check('making a message never throws', r.kind == 'ok')
        if r.kind == 'ok':
            (f1, f2), fd = msg_fields(X)
            fresh_copy(X, 'payload of a new message', mf(X, made, fd), o.loc, old)
            g1 = invoke(X, the(prog, MSG + '::GetSender', 0), made, [])
            g2 = invoke(X, the(prog, MSG + '::GetTopic', 0), made, [])
            X.check('a new message has the given sender and topic', z3.And(X.lib.sv(X.val(g1.v)) == a[0].t, X.lib.sv(X.val(g2.v)) == a[1].t))
    X.paths = verify(X, body)
    return X


def msg_copy(prog):
    X = prepare(prog)
    fn = the(prog, MSG + '::Message', 1, lambda f: f.js.get('copyctor'))

    def body():
        o = node(X)
        no_frozen(X)
        s = X.struct_shape(MSG)
        made = X.cell(X.newsym(s, 'made'), s)
        m = message(X, o.loc)
        v0 = X.val(m).c
        old = X.st.copy()
        r = invoke(X, fn, made, [m])
        X.check('copying a message never throws', r.kind == 'ok')
        if r.kind == 'ok':
            (f1, f2), fd = msg_fields(X)
            fresh_copy(X, 'payload of a copied message', mf(X, made, fd), o.loc, old)
            X.check('a copied message has the same sender and topic', z3.And(mf(X, made, f1) == mf(X, m, f1), mf(X, made, f2) == mf(X, m, f2)))
            X.check('copying does not change the message', z3.And([a == b for a, b in zip(v0, X.val(m).c)]))
    X.paths = verify(X, body)
    return X


def tasks(prog):
    return [Task('RawDatagram::Copy', copy), Task('Datagram copy', dg_copy), Task('Datagram assignment', dg_assign), Task('Message::GetDatagram', msg_get),
            Task('Message construction', msg_make), Task('Message copy', msg_copy)]
