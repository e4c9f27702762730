"""What the specifications of the message bus share.

Messages and datagrams are values here: a message is a sort with its sender, topic and payload as
functions, a datagram a sort without structure.  That a copy is an equal, independent value is what
P01-P04 and P07 establish for the real classes; the contracts below state it for the calls the bus makes."""
from spec import *

BUS, SUB, PUB, PART = 'lp::bus::Bus', 'lp::bus::Subscriber', 'lp::bus::Publisher', 'lp::bus::BusParticipant'
PROV, CONS = 'lp::bus::ActionProvider', 'lp::bus::ActionConsumer'
MSG, DG = 'lp::messages::Message', 'lp::messages::Datagram'
EXC = 'lp::exceptions::'
Msg, Dgm = z3.DeclareSort('Msg'), z3.DeclareSort('Dgm')
OS = StrOpaque.sort
m_sender, m_topic, m_load = z3.Function('m_sender', Msg, OS), z3.Function('m_topic', Msg, OS), z3.Function('m_payload', Msg, Dgm)
m_mk = z3.Function('m_make', OS, OS, Dgm, Msg)
d_empty = z3.Const('d_empty', Dgm)

TRUSTED = ['messages and datagrams are values whose copies are equal and independent (established for the real classes by P02, P03 and P07)',
           'std::function, std::shared_ptr, std::list, std::map and std::mutex as the C++ standard says']


def contracts(X):
    M, D = Sh('abs', [Msg], cls=MSG), Sh('abs', [Dgm], cls=DG)
    X.M, X.D = M, D

    def msg_ctor(X, fn, this, a):
        if fn.js.get('copyctor') or fn.js.get('movector'):
            v = X.val(a[0])
            if fn.js.get('movector') and isinstance(a[0], E.LV):
                X.write(a[0], X.newsym(v.s, 'moved'))
        elif not a:
            v = X.newsym(M, 'msg')
            X.assume(m_load(v.t) == d_empty)
        else:
            ts = [X.val(x) for x in a]
            if len(ts) != 3:
                raise Unsupported('Message constructor')
            v = mkmsg(X, X.lib.sv(ts[0]), X.lib.sv(ts[1]), ts[2].t)
        if this is not None:
            X.write(this, v)
        return v

    def dg_ctor(X, fn, this, a):
        if fn.js.get('copyctor') or fn.js.get('movector'):
            v = X.val(a[0])
            if fn.js.get('movector') and isinstance(a[0], E.LV):
                X.write(a[0], X.newsym(v.s, 'moved'))
        elif not a:
            v = V(D, [d_empty])
        else:
            v = X.newsym(D, 'dg')
        if this is not None:
            X.write(this, v)
        return v

    def getter(f, sh):
        def g(X, fn, this, a):
            v = V(sh, [f(X.val(this).t)])
            X.typed(v)
            return v
        return g

    def assign(X, fn, this, a):
        return X.lib.assign(fn, this, a[0], fn.cls.n)
    return [Contract('Message constructor', lambda f: sig0(f) == MSG + '::Message', msg_ctor),
            Contract('Datagram constructor', lambda f: sig0(f).split('<')[0] == DG + '::Datagram', dg_ctor),
            Contract('Message::GetSender', MSG + '::GetSender', getter(m_sender, X.STR)),
            Contract('Message::GetTopic', MSG + '::GetTopic', getter(m_topic, X.STR)),
            Contract('Message::GetDatagram', MSG + '::GetDatagram', getter(m_load, D)),
            Contract('assignment of messages', lambda f: f.n == 'operator=' and f.cls is not None and strip_const(f.cls.s) in (MSG, DG) and (f.js.get('copyassign') or f.js.get('moveassign')), assign)]


def mkmsg(X, sender, topic, load):
    m = m_mk(sender, topic, load)
    X.assume(z3.And(m_sender(m) == sender, m_topic(m) == topic, m_load(m) == load))
    return V(X.M, [m])


def engine(prog, **kw):
    X = Engine(prog, StrOpaque(), abstract={MSG: Msg, DG: Dgm}, **kw)
    X.contracts += contracts(X)
    return X


def field_of(X, cls, pred, what):
    fs = fields_by(X, cls, pred)
    if len(fs) != 1:
        raise Unsupported('%s: %s has %d candidate fields' % (what, cls, len(fs)))
    return fs[0]


def is_fn(s, t):
    return s.k == 'fn'


def to_cls(t, cls):
    return t.k == 'rec' and t.n == 'std::shared_ptr' and strip_const(t.args[0].s) == cls


def f_children(X):
    return field_of(X, BUS, lambda s, t: s.k == 'map' and t.k == 'rec' and len(t.args) > 1 and to_cls(t.args[1], BUS), 'child registry')


def f_list(X, cls):
    return field_of(X, BUS, lambda s, t: s.k == 'seq' and to_cls(t.args[0], cls), 'registry of ' + cls)


def f_queue(X):
    return field_of(X, BUS, lambda s, t: s.k == 'seq' and s.a.k == 'abs', 'message queue')


def f_publish(X):
    return field_of(X, BUS, is_fn, 'publishing function')


def f_running(X):
    return field_of(X, BUS, lambda s, t: t.k == 'rec' and t.n == 'std::atomic' and s.k == 'bool', 'running flag')


def f_callback(X, cls):
    return field_of(X, cls, is_fn, 'callback')


def between(i, q0, q, up):
    """position i was passed by a loop going from q0 to q"""
    return z3.And(i >= q0, i < q) if up else z3.And(i >= q, i < q0)


def seq_all(v, p):
    """p holds for every element of a sequence value"""
    i = z3.Const('i!all', Int)
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v.t), p(z3.Select(v.c[1], i), i)))


def seq_same(a, b):
    i = z3.Const('i!same', Int)
    return z3.And(a.t == b.t, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a.t), z3.Select(a.c[1], i) == z3.Select(b.c[1], i))))


def child(X, o, st=None):
    return getf(X, o, BUS, f_children(X), st)


def bus_invariant(X, loc, st=None):
    """facts every live bus satisfies: registered pointers are not null and denote live objects
    (established by the creating functions, see the 'registry' obligations of P11 and P12)"""
    c = child(X, loc, st)
    nxt = (st or X.st).nxt
    k = z3.Const('k!inv', c.c[0].sort().domain())
    X.assume(z3.ForAll([k], z3.Implies(z3.Select(c.c[0], k), z3.And(z3.Select(c.c[1], k) > 0, z3.Select(c.c[1], k) < nxt)), patterns=[z3.Select(c.c[1], k)]))
    for cls in (SUB, PUB):
        v = getf(X, loc, BUS, f_list(X, cls), st)
        i = z3.Const('i!inv', Int)
        X.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v.t), z3.And(z3.Select(v.c[1], i) > 0, z3.Select(v.c[1], i) < nxt)), patterns=[z3.Select(v.c[1], i)]))


def unchanged_but(X, old, allow):
    """every field of every old object is unchanged, except the (cls, field, loc) in allow"""
    l = z3.Const('l!ub', Int)
    cs = []
    for key, arrs in X.st.heap.items():
        o = X.heap_at_raw(old, key, arrs)
        ex = [loc for c, f, loc in allow if (c, f) == key]
        for a, b in zip(arrs, o):
            if not a.eq(b):
                cs.append(z3.ForAll([l], z3.Implies(z3.And([l >= 0, l < old.nxt] + [l != x for x in ex]), z3.Select(a, l) == z3.Select(b, l))))
    return z3.And(cs) if cs else z3.BoolVal(True)


def strarg(X, hint):
    return X.newsym(X.STR, hint)


def member(v, x):
    """x occurs in a sequence value"""
    i = z3.Const('i!mem', Int)
    return z3.Exists([i], z3.And(i >= 0, i < v.t, z3.Select(v.c[1], i) == x))


def distinct_seq(v):
    i, j = z3.Const('i!d', Int), z3.Const('j!d', Int)
    return z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < v.t), z3.Select(v.c[1], i) != z3.Select(v.c[1], j)))


def count_calls(X):
    """calls of function values the code got from outside are recorded: number, function, argument"""
    def unknown(X, t, a, f):
        X.st.ghost['call.n'] = z3.simplify(X.st.ghost['call.n'] + 1)
        X.st.ghost['call.f'] = t
        for i, x in enumerate(a):
            v = X.val(x)
            if f is not None and i < len(f.pt) and f.pt[i].k == 'ref' and not f.pt[i].to.const and not f.pt[i].rv:
                raise Unsupported('callback with a modifiable argument')
            if isinstance(v, V) and v.s.n:
                X.st.ghost['call.a%d' % i] = v.t
        return V(UNIT, [])
    X.hooks['unknown_call'] = unknown


def no_calls(X):
    X.st.ghost['call.n'] = z3.IntVal(0)
    for k in list(X.st.ghost):
        if str(k).startswith('call.') and k != 'call.n':
            del X.st.ghost[k]


def calls(X):
    return X.st.ghost['call.n']


def subscriber_topic(X, loc, st=None):
    """topic of a participant (its text field)"""
    fs = fields_by(X, PART, lambda s, t: s.k == 'str')
    if len(fs) != 1:
        raise Unsupported('topic field of a participant')
    return getf(X, loc, PART, fs[0], st).t


def matches(X, pattern, topic):
    """the pattern language that P08 proves for AntMatcher::Matches"""
    return z3.Or(pattern == topic, pattern == X.S.lit(b'/**/*'))


def ant_contract(X):
    def ap(X, fn, this, a):
        return V(BOOL, [matches(X, X.lib.sv(X.val(a[0])), X.lib.sv(X.val(a[1])))])
    return Contract('AntMatcher::Matches', 'lp::utilities::AntMatcher::Matches', ap)
