"""P13: action requests, responses and provider answers.

Payloads are real trees here (the representation of lpv/tree.py): operator[] and the assignments of Datagram
are verified in place, RawDatagram::Copy by the contract that P02 proves.  Bus::Publish is replaced by a
record of the published message (P10 delivers it), the callbacks are unknown functions whose calls are
recorded with the payload at that moment."""
from tree import *
import bus as B
import P02

BUS, SUB, PUB, PROV, CONS, PART, MSG = B.BUS, B.SUB, B.PUB, B.PROV, B.CONS, B.PART, P02.MSG
UUID = 'lp::utilities::Uuid'
ID, REQ, RES = 'invocationId', 'request', 'response'
ASSUMPTIONS = ['payloads are finite trees of live nodes (structural induction)',
               'a generated invocation id differs from the ids of the requests still open (random identifiers, P25)',
               'messages on the action topics are well formed: a dictionary with a textual invocation id and a response',
               'a callback does not change the payload it is given or the participants, except that it may issue further requests']
TRUSTED = ['std::map, std::function and std::shared_ptr as the C++ standard says']


def lit(X, t):
    return X.S.lit(t.encode())


def entry(X, n, k, st=None):
    return X.sel(dic(X, n, st).c[1], lit(X, k))


def has(X, n, k, st=None):
    return z3.And(kind(X, n, st) == X.R.D, X.sel(dic(X, n, st).c[0], lit(X, k)))


def deep(X, r, src, st, old):
    """identity of two nodes, spelled out one level below the fixed keys too"""
    return z3.And([iso1(X, r, src, st, old)] + [z3.Implies(has(X, src, k, old), iso1(X, entry(X, r, k, st), entry(X, src, k, old), st, old)) for k in (ID, REQ, RES)])


def same_raw(X, n, a, b):
    """the node itself has not been written between two states"""
    return z3.And([X.sel(x, n) == X.sel(y, n) for f in field_names(X, RAW) if (RAW, f) in X.st.heap for x, y in zip(X.heap_at_raw(a, (RAW, f)), X.heap_at_raw(b, (RAW, f)))])


def copied(X, src):
    """a fresh copy of node src, related to what src is itself an unmodified copy of as well"""
    X.check('the copied node is alive', z3.And(src > 0, src < X.st.nxt))
    for f in field_names(X, RAW) if X.hooks.get('access') else ():
        X.hooks['access'](X, (RAW, f), src, 'read')
    old = X.st.copy()
    n0, n1 = grow(X)
    r = fresh_node(X, n0, n1)
    X.assume(A(r) == A(src))
    X.assume(deep(X, r, src, X.st, old))
    X.assume(children(X, r, lambda c: z3.And(c >= n0, c < n1, c != r)))
    X.assume(wf(X, r))
    X.facts[r.get_id()] = []
    X.keep.append(r)

    def fact(c):
        X.assume(c)
        X.facts[r.get_id()].append(c)
    for k in (ID, REQ, RES):
        fact(z3.Implies(has(X, r, k), z3.And(wf(X, entry(X, r, k)), children(X, entry(X, r, k), lambda c: z3.And(c >= n0, c < n1, c != r)))))
    freeze(X, n0, n1)
    f = X.st.ghost['frozen']
    X.st.ghost['frozen'] = z3.Store(f, r, z3.BoolVal(False))
    for c, made, origin, st in X.st.ghost.get('copies', ()):
        if c.eq(src):
            X.assume(z3.Implies(same_raw(X, src, made, old), deep(X, r, origin, X.st, st)))
            X.st.ghost['copies'] += ((r, X.st.copy(), origin, st),)
            return r
    X.st.ghost['copies'] = X.st.ghost.get('copies', ()) + ((r, X.st.copy(), src, old),)
    return r


def deep_copy(X):
    """the copy contracts of P02"""
    def raw_copy(X, fn, this, a):
        if not isinstance(this, ObjLV):
            raise Unsupported('copy of a node that is no object')
        return V(X.shape(fn.ret), [copied(X, this.loc)])

    def dg_copy(X, fn, this, a):
        v = V(X.struct_shape(DG), [copied(X, X.val(a[0]).c[0])])
        if this is not None:
            X.write(this, v)
        return v
    return [Contract('RawDatagram::Copy: a fresh, structurally identical tree; nothing else changes', RAW + '::Copy', raw_copy),
            Contract('copying a Datagram: a fresh, structurally identical tree; nothing else changes', lambda f: sig0(f) == DG + '::Datagram' and P02.is_copy_ctor(f, DG), dg_copy)]


def iso_parts(X, n, m, sn, sm):
    return list(zip(('kind', 'list', 'dictionary', 'value'), iso1(X, n, m, sn, sm).children()))


def prepare(prog):
    X = engine(prog)
    X.facts = {}
    X.on_call = None
    X.open_ids = ()
    X.contracts[:0] = deep_copy(X)
    write_guard(X)

    def uuid(X, fn, this, a):
        u = X.newsym(X.struct_shape(UUID), 'uuid')
        c = X.cell(u)
        f = [f for f in X.prog.defs.values() if f.user and f.sig.startswith(UUID + '::operator ') and 'basic_string' in f.sig]
        if len(f) != 1:
            raise Unsupported('conversion of Uuid to text')
        i = X.val(X.inline(f[0], c, [])).t
        for dom in X.open_ids:
            # listed assumption (P25): a generated identifier differs from those in use
            X.assume(z3.Not(z3.Select(dom, i)))
        X.st.ghost['uuids'] = X.st.ghost.get('uuids', ()) + (i,)
        return X.val(c)

    def publish(X, fn, this, a):
        m = a[0] if isinstance(a[0], E.LV) else X.cell(X.val(a[0]))
        (f1, f2), fd = P02.msg_fields(X)
        g1 = X.val(X.inline(the(X.prog, MSG + '::GetTopic', 0), m, [])).t
        X.st.ghost['pub.n'] = z3.simplify(X.st.ghost['pub.n'] + 1)
        X.st.ghost['pub'] = (this.loc, g1, P02.mf(X, m, fd), X.st.copy())
        return V(UNIT, [])
    X.contracts[:0] = [Contract('Uuid::CreateUuid: some identifier', UUID + '::CreateUuid', uuid),
                       Contract('Bus::Publish: records the message', lambda f: sig0(f) == BUS + '::Publish' and len(f.params) == 1, publish)]

    def unknown(X, t, a, f):
        X.st.ghost['call.n'] = z3.simplify(X.st.ghost['call.n'] + 1)
        vs = []
        for x in a:
            v = X.val(x)
            vs.append(v.c[0] if v.s.k == 'struct' else v.t)
        X.st.ghost['call'] = (t, tuple(vs), X.st.copy())
        if X.on_call:
            X.on_call()
        return V(UNIT, [])
    X.hooks['unknown_call'] = unknown
    return X


def reset(X):
    for k in ('pub', 'call', 'uuids', 'copies'):
        X.st.ghost.pop(k, None)
    X.st.ghost['pub.n'] = X.st.ghost['call.n'] = z3.IntVal(0)
    no_frozen(X)


def dg_arg(X, fn, i, loc):
    """a datagram argument for parameter i, designating node loc"""
    d = datagram(X, loc)
    return d if fn.pt[i].k == 'ref' else X.val(d)


def str_arg(X, fn, i, v):
    return X.cell(v) if fn.pt[i].k == 'ref' else v


def obj(X, cls, loc):
    return ObjLV(loc, cls, X.struct_shape(cls))


def is_text(X, n, st):
    return z3.And(kind(X, n, st) == X.R.V, is_data(X, SCALARS['String'], value(X, n, st), st))


def text(X, n, st):
    return data_content(X, SCALARS['String'], value(X, n, st), st)


def requests(X):
    return B.field_of(X, CONS, lambda s, t: s.k == 'map', 'open requests')


def live_bus(X, hint='bus'):
    o = sym_this(X, BUS, hint)
    return o


def published(X, what, bus, topic, other, src, old, idterm=None):
    """exactly one message was published on the bus, with the topic, an id and a copy of src"""
    X.check('%s publishes exactly one message' % what, X.st.ghost['pub.n'] == 1)
    p = X.st.ghost.get('pub')
    if p is None:
        return None
    loc, t, n, st = p
    X.check('%s publishes on its bus' % what, loc == bus)
    X.check('%s publishes on the topic of the action' % what, t == topic)
    X.check('%s: the message carries an invocation id' % what, z3.And(has(X, n, ID, st), is_text(X, entry(X, n, ID, st), st)))
    X.check('%s: the message carries the %s' % (what, other), has(X, n, other, st))
    for c, made, origin, sto in X.st.ghost.get('copies', ()):
        if c.eq(n):
            parts = []
            e = entry(X, origin, other, sto)
            X.check('%s: the wrapped %s is a live node' % (what, other), z3.And(e >= old.nxt, e < sto.nxt, e != origin))
            for part in iso_parts(X, e, src, sto, old):
                X.check('%s: the wrapped %s is an equal copy, %s' % (what, other, part[0]), part[1])
                parts.append(part[1])
            for part in iso_parts(X, entry(X, n, other, st), e, st, sto):
                X.check('%s: the sent %s is an equal copy of the wrapped one, %s' % (what, other, part[0]), part[1])
                parts.append(part[1])
            for part in iso_parts(X, entry(X, n, other, st), src, st, old):
                X.lemma('%s: the %s is an equal copy, %s' % (what, other, part[0]), parts, part[1])
    e = entry(X, n, other, st)
    for part in iso_parts(X, e, src, st, old):
        X.check('%s: the %s is an equal copy, %s' % (what, other, part[0]), part[1])
    X.check('%s: the message shares no node with the %s' % (what, other), z3.And(n >= old.nxt, e >= old.nxt))
    n0 = X.lows.get(n.decl().name()) if z3.is_const(n) else None
    if n0 is not None:
        X.lemma('%s: the message shares no part of the %s' % (what, other), [has(X, n, other, st), n0 >= old.nxt] + X.facts.get(n.get_id(), []), children(X, e, lambda c: c >= old.nxt, st))
    X.check('%s: the message shares no part of the %s' % (what, other), children(X, e, lambda c: c >= old.nxt, st))
    return text(X, entry(X, n, ID, st), st)


def made_consumer(X, bus, topic):
    fn = the(X.prog, 'lpv::createActionConsumer', 2)
    return X.val(invoke(X, fn, None, [bus, str_arg(X, fn, 1, topic)]).v).t


def made_provider(X, bus, topic, cb):
    fn = the(X.prog, 'lpv::createActionProvider', 3)
    return X.val(invoke(X, fn, None, [bus, str_arg(X, fn, 1, topic), str_arg(X, fn, 2, cb)]).v).t


def cat(X, a, b):
    return X.S.concat(a, lit(X, b))


def open_map(X, c, st=None):
    return getf(X, c, CONS, requests(X), st)


def request(prog):
    """a consumer made by the bus: one request"""
    X = prepare(prog)
    fn = the(prog, CONS + '::RequestAsync', 2)

    def body():
        reset(X)
        X.open_ids = ()
        bus = live_bus(X)
        t = X.newsym(X.STR, 'topic')
        c = obj(X, CONS, made_consumer(X, bus, t))
        n = node(X)
        f = X.newsym(X.shape(fn.pt[1].to if fn.pt[1].k == 'ref' else fn.pt[1]), 'callback')
        reset(X)
        # any requests may be open already
        some_requests(X, c)
        old = X.st.copy()
        m0 = open_map(X, c, old)
        X.open_ids = (m0.c[0],)
        r = invoke(X, fn, c, [dg_arg(X, fn, 0, n.loc), str_arg(X, fn, 1, f)])
        if r.kind != 'ok':
            X.check('a request fails only without a callback', f.t == 0)
            X.check('a request without a callback changes nothing', z3.And(unchanged(X, old), X.st.ghost['pub.n'] == 0))
            return
        X.check('a request without a callback is refused', f.t != 0)
        X.check('a request invokes no callback', X.st.ghost['call.n'] == 0)
        i = published(X, 'a request', bus.loc, cat(X, t.t, '/request'), REQ, n.loc, old)
        if i is None:
            return
        us = X.st.ghost.get('uuids', ())
        X.check('a request: the id was generated for it', z3.Or([i == u for u in us]) if us else z3.BoolVal(False))
        mp = open_map(X, c, X.st.ghost['pub'][3])
        X.check('a request is open, with its callback, before it is published', z3.And(z3.Select(mp.c[0], i), z3.Select(mp.c[1], i) == f.t))
        m1 = open_map(X, c)
        k = kq(X)
        X.check('a request is open under its id, with its callback', z3.And(z3.Select(m1.c[0], i), z3.Select(m1.c[1], i) == f.t))
        X.check('a request leaves the other open requests alone', z3.ForAll([k], z3.Implies(k != i, z3.And(z3.Select(m1.c[0], k) == z3.Select(m0.c[0], k), z3.Implies(z3.Select(m0.c[0], k), z3.Select(m1.c[1], k) == z3.Select(m0.c[1], k))))))
        X.check('a request changes nothing else', B.unchanged_but(X, old, [(CONS, requests(X), c.loc)]))
    X.paths = verify(X, body)
    return X


def some_requests(X, c):
    """any requests are open on consumer c"""
    s0 = open_map(X, c)
    X.hwrite(CONS, requests(X), c.loc, X.newsym(s0.s, 'open'))
    m = open_map(X, c)
    X.map_axioms(m.c[0])
    k = kq(X)
    X.assume(z3.ForAll([k], z3.Implies(z3.Select(m.c[0], k), z3.Select(m.c[1], k) < 0), patterns=[z3.Select(m.c[1], k)]))
    return m


def answered(X, what, c, i, src, old, late=None):
    """the response with id i was handed to the request it answers, which is closed; nothing else happened"""
    m0, m1 = open_map(X, c, old), open_map(X, c)
    known = z3.Select(m0.c[0], i)
    k = kq(X)
    X.check('%s publishes nothing' % what, X.st.ghost['pub.n'] == 0)
    X.check('%s invokes exactly one callback for an open request and none otherwise' % what, X.st.ghost['call.n'] == z3.If(known, 1, 0))
    call = X.st.ghost.get('call')
    if call is not None:
        f, a, st = call
        X.check('%s invokes the callback registered for the id' % what, z3.And(known, f == z3.Select(m0.c[1], i)))
        X.check('%s hands over one payload' % what, z3.BoolVal(len(a) == 1))
        for part in iso_parts(X, a[0], src, st, old) if len(a) == 1 else ():
            X.check('%s hands over an equal payload, %s' % (what, part[0]), part[1])
    X.check('%s closes the request' % what, z3.Not(z3.Select(m1.c[0], i)))
    same = z3.And(z3.Select(m1.c[0], k) == z3.Select(m0.c[0], k), z3.Implies(z3.Select(m0.c[0], k), z3.Select(m1.c[1], k) == z3.Select(m0.c[1], k)))
    X.check('%s leaves the other open requests alone' % what, z3.ForAll([k], z3.Implies(z3.And([k != i] + ([k != late] if late is not None else [])), same)))
    X.check('%s changes nothing else' % what, B.unchanged_but(X, old, [(CONS, requests(X), c.loc)]))


def process(nested):
    def run(prog):
        """a response for an arbitrary id; nested: the callback issues a further request"""
        X = prepare(prog)
        fn = the(prog, CONS + '::ProcessResponse', 2)

        def body():
            reset(X)
            X.on_call = None
            c = sym_this(X, CONS, 'consumer')
            n = node(X)
            some_requests(X, c)
            i = X.newsym(X.STR, 'id')
            late = X.fresh(X.STR.sorts[0], 'late')
            g = X.fresh(Int, 'late.f')
            old = X.st.copy()
            m0 = open_map(X, c, old)
            if nested:
                X.assume(z3.And(late != i.t, z3.Not(z3.Select(m0.c[0], late)), g < 0))

                def on_call():
                    m = open_map(X, c)
                    X.st.heap[(CONS, requests(X))] = tuple(z3.Store(a, c.loc, z3.Store(X.sel(a, c.loc), late, v)) for a, v in zip(X.harr((CONS, requests(X)), m.s), (z3.BoolVal(True), g)))
                    X.map_axioms(open_map(X, c).c[0])
                X.on_call = on_call
            r = invoke(X, fn, c, [str_arg(X, fn, 0, i), dg_arg(X, fn, 1, n.loc)])
            X.check('a response never throws', r.kind == 'ok')
            if r.kind != 'ok':
                return
            answered(X, 'a response', c, i.t, n.loc, old, late if nested else None)
            if nested and X.st.ghost.get('call') is not None:
                m1 = open_map(X, c)
                X.check('a request issued by the callback stays open', z3.And(z3.Select(m1.c[0], late), z3.Select(m1.c[1], late) == g))
        X.paths = verify(X, body)
        return X
    return Task('ActionConsumer::ProcessResponse' + (' (callback issues a request)' if nested else ''), run)


def new_subscriber(X, bus, old):
    l0, l1 = getf(X, bus, BUS, B.f_list(X, SUB), old), getf(X, bus, BUS, B.f_list(X, SUB))
    X.check('one subscriber is created', l1.t == l0.t + 1)
    return obj(X, SUB, X.sel(l1.c[1], l0.t))


def well_formed(X, n, other):
    """payload of a message on an action topic"""
    st = X.st
    X.assume(z3.And(has(X, n, ID), has(X, n, other), entry(X, n, ID) != entry(X, n, other)))
    X.assume(z3.And(wf(X, entry(X, n, ID)), wf(X, entry(X, n, other)), is_text(X, entry(X, n, ID), st)))
    return text(X, entry(X, n, ID), st)


def receive(X, s, n):
    m = P02.message(X, n, 'message')
    fn = the(X.prog, SUB + '::Receive', 1)
    return invoke(X, fn, s, [m if fn.pt[0].k == 'ref' else X.val(m)])


def response_message(prog):
    """a consumer made by the bus: a message arrives at the subscriber made for it"""
    X = prepare(prog)

    def body():
        reset(X)
        n = node(X)
        i = well_formed(X, n.loc, RES)
        bus = live_bus(X)
        t = X.newsym(X.STR, 'topic')
        old = X.st.copy()
        c = obj(X, CONS, made_consumer(X, bus, t))
        s = new_subscriber(X, bus, old)
        X.check('the consumer subscribes to the response topic', B.subscriber_topic(X, s) == cat(X, t.t, '/response'))
        X.check('creating a consumer publishes and invokes nothing', z3.And(X.st.ghost['pub.n'] == 0, X.st.ghost['call.n'] == 0))
        reset(X)
        some_requests(X, c)
        old = X.st.copy()
        r = receive(X, s, n.loc)
        X.check('a response message never throws', r.kind == 'ok')
        if r.kind == 'ok':
            answered(X, 'a response message', c, i, entry(X, n.loc, RES, old), old)
    X.paths = verify(X, body)
    return X


def provider(prog):
    """a provider made by the bus: a request arrives at the subscriber made for it"""
    X = prepare(prog)

    def body():
        reset(X)
        n = node(X)
        i = well_formed(X, n.loc, REQ)
        bus = live_bus(X)
        t = X.newsym(X.STR, 'topic')
        f = X.newsym(X.shape(the(X.prog, 'lpv::createActionProvider', 3).pt[2]), 'callback')
        X.assume(f.t < 0)
        old = X.st.copy()
        p = made_provider(X, bus, t, f)
        s = new_subscriber(X, bus, old)
        X.check('the provider subscribes to the request topic', B.subscriber_topic(X, s) == cat(X, t.t, '/request'))
        X.check('creating a provider publishes and invokes nothing', z3.And(X.st.ghost['pub.n'] == 0, X.st.ghost['call.n'] == 0))
        reset(X)
        old = X.st.copy()
        r = receive(X, s, n.loc)
        X.check('a request message never throws', r.kind == 'ok')
        if r.kind != 'ok':
            return
        X.check('a request message invokes the provider once', z3.And(X.st.ghost['call.n'] == 1, X.st.ghost['pub.n'] == 0))
        call = X.st.ghost.get('call')
        if call is not None:
            g, a, st = call
            X.check('a request message invokes the callback of the provider', z3.And(g == f.t, z3.BoolVal(len(a) == 3)))
            X.check('the provider is told who it is and the invocation id', z3.And(a[0] == p, a[1] == i))
            for part in iso_parts(X, entry(X, a[2], REQ, st), entry(X, n.loc, REQ, old), st, old):
                X.check('the provider gets an equal request, %s' % part[0], part[1])
        X.check('a request message changes nothing', unchanged(X, old))
    X.paths = verify(X, body)
    return X


def respond(prog):
    """a provider made by the bus: one answer"""
    X = prepare(prog)
    fn = the(prog, PROV + '::Respond', 2)

    def body():
        reset(X)
        bus = live_bus(X)
        t = X.newsym(X.STR, 'topic')
        f = X.newsym(X.shape(the(X.prog, 'lpv::createActionProvider', 3).pt[2]), 'callback')
        p = obj(X, PROV, made_provider(X, bus, t, f))
        n = node(X)
        i = X.newsym(X.STR, 'id')
        reset(X)
        old = X.st.copy()
        r = invoke(X, fn, p, [str_arg(X, fn, 0, i), dg_arg(X, fn, 1, n.loc)])
        X.check('an answer never throws', r.kind == 'ok')
        if r.kind != 'ok':
            return
        X.check('an answer invokes no callback', X.st.ghost['call.n'] == 0)
        j = published(X, 'an answer', bus.loc, cat(X, t.t, '/response'), RES, n.loc, old)
        if j is not None:
            X.check('an answer carries the invocation id it was given', j == i.t)
        X.check('an answer changes nothing', unchanged(X, old))
    X.paths = verify(X, body)
    return X


def tasks(prog):
    return [Task('ActionConsumer::RequestAsync', request), process(False), process(True), Task('response message', response_message),
            Task('request message', provider), Task('ActionProvider::Respond', respond)]
