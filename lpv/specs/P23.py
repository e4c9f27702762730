"""P23: the link forwards every local message once on every outgoing socket and echoes none back.

The ZeroMQ functions are contracts: a socket is null or new, with the type asked for; a multi-part message consists
of the parts sent with ZMQ_SNDMORE and the one that ends it.  What a message looks like as bytes, and that it comes
back from them, is P01; byte buffers are the real code.  The callback that Initialize installs on the bus is run on
an arbitrary message; Run is verified against arbitrary arrivals."""
from bus import *
from P19 import quiet_log
import P18

LINK, PI, RB = 'lp::plugins::Link', 'lp::PluginInstance', 'lp::data::RawBytes'
HARNESS_SOURCES = ['src/plugins/link/Link.cpp']
ZMQ = ('ctx_new ctx_term ctx_shutdown ctx_destroy term init ctx_set ctx_get errno strerror socket close bind connect setsockopt getsockopt send recv sendmsg recvmsg '
       'msg_init msg_init_size msg_init_data msg_send msg_recv msg_close msg_data msg_size msg_more msg_move msg_copy poll').split()
HARNESS_FLAGS = ['-Dzmq_%s=lpv_zmq_%s' % (f, f) for f in ZMQ]
ASSUMPTIONS = ['sending on an outgoing socket succeeds (a publishing socket never blocks and never refuses a part)', 'initialising a ZeroMQ message succeeds',
               'messages arrive as a topic part and one payload part; the payload is the serialisation of a message, or bytes that Message::Deserialize rejects (P27)',
               'serialised messages are not empty, payloads shorter than 2^31 bytes', 'with both roles enabled, binding and connecting succeed (for one role: any outcome)', 'the callback runs between Initialize and Deinitialize']
TRUSTED = ['ZeroMQ: parts of a multi-part message are sent and received in order, and as one message']
Int, Bool = z3.IntSort(), z3.BoolSort()
MEM = z3.ArraySort(Int, Int)
ser_data, ser_n = z3.Function('ser_data', Msg, MEM), z3.Function('ser_n', Msg, Int)
c_flag = z3.Function('configured', Dgm, OS, Bool)
c_int, c_text = z3.Function('configured_number', Dgm, OS, Int), z3.Function('configured_text', Dgm, OS, OS)
was_by, prepended = z3.Function('was_by', OS, OS, Bool), z3.Function('prepended', OS, OS, OS)
in_msg = z3.Function('incoming', Int, Msg)
PUBT, SUBT, DONTWAIT, SNDMORE, RCVMORE, SUBSCRIBE = 1, 2, 1, 2, 13, 6
SZ = Sh('int', [Int], w=64, sg=False)
I32 = Sh('int', [Int], w=32, sg=True)


def field_ptr(X, cls, k):
    fs = [(n, X.shape(t)) for n, t, _ in X.prog.recs[cls].fields if X.shape(t).k == k]
    if len(fs) != 1:
        raise Unsupported('fields of ' + cls)
    return fs[0]


def sel(g, k):
    return z3.Select(g, k)


def zmq(X):
    """the ZeroMQ contracts that both directions need"""
    X.ext['zmq_msg_t'] = [('block', Int_()), ('size', SZ)]
    E_ = X.lib.ext

    def msg(a, f, fr, i=0):
        return X.deref(X.val(a[i]), f.pt[i], fr)

    def mf(lv, n):
        return X.field(lv, 'zmq_msg_t', n, SZ if n == 'size' else Int_())

    def init(X, f, this, a, fr, e):
        m = msg(a, f, fr)
        n = X.val(a[1]).t if len(a) > 1 else z3.IntVal(0)
        b = X.alloc()
        X.lib.mem_set('len', b, n)
        X.lib.mem_set('live', b, z3.BoolVal(True))
        X.write(mf(m, 'block'), V(Int_(), [b]))
        X.write(mf(m, 'size'), V(SZ, [n]))
        return V(I32, [z3.IntVal(0)])

    def empty(m):
        b = X.alloc()
        X.lib.mem_set('len', b, z3.IntVal(0))
        X.lib.mem_set('live', b, z3.BoolVal(True))
        X.write(mf(m, 'block'), V(Int_(), [b]))
        X.write(mf(m, 'size'), V(SZ, [z3.IntVal(0)]))
    E_['zmq_msg_init'] = init
    E_['zmq_msg_init_size'] = init
    E_['zmq_msg_data'] = lambda X, f, this, a, fr, e: V(X.shape(f.ret), [X.read(mf(msg(a, f, fr), 'block')).t, z3.IntVal(0)])
    E_['zmq_msg_size'] = lambda X, f, this, a, fr, e: X.read(mf(msg(a, f, fr), 'size'))
    E_['zmq_msg_close'] = lambda X, f, this, a, fr, e: V(I32, [z3.IntVal(0)])
    E_['zmq_errno'] = lambda X, f, this, a, fr, e: X.newsym(I32, 'errno')
    E_['zmq_strerror'] = lambda X, f, this, a, fr, e: E.CStr(X.fresh(X.S.sort, 'error'))

    def part(m):
        return X.read(mf(m, 'block')).t, z3.IntVal(0), X.read(mf(m, 'size')).t
    X.zpart, X.zempty, X.zmsg, X.zfield = part, empty, msg, mf


def Int_():
    return Sh('int', [Int], w=64, sg=True)


def send_side(X):
    E_ = X.lib.ext

    def more(flags):
        t = z3.simplify(flags)
        if not z3.is_int_value(t):
            raise Unsupported('flags of a send that are not constant')
        return bool(t.as_long() & SNDMORE)

    def part(sock, content, flags):
        """content: 'A' text term, or (block, offset, size)"""
        g = X.st.ghost
        s = sock.c[0]
        X.check('messages are sent only on outgoing sockets', z3.And(s != 0, sel(g['type'], s) == PUBT), tag='hard')
        if X.branch(sel(g['part'], s) == 0):
            if isinstance(content, tuple):
                b, o, n = content
                X.check('the first part is the topic the links subscribe to', z3.And(n >= 1, sel(X.lib.mem('data', b), o) == 65), tag='hard')
            else:
                X.check('the first part is the topic the links subscribe to', content == X.S.lit(b'A'), tag='hard')
            if not more(flags):
                X.check('a topic is followed by the message', z3.BoolVal(False), tag='hard')
            g['part'] = z3.Store(g['part'], s, 1)
            return
        if not isinstance(content, tuple):
            raise Unsupported('text as the payload')
        b, o, n = content
        i = z3.Const('i!p', Int)
        d = X.lib.mem('data', b)
        m = X.local.t
        X.check('what is sent is the serialised message', z3.And(n == ser_n(m), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), sel(d, o + i) == sel(ser_data(m), i)))), tag='hard')
        if more(flags):
            X.check('the message ends with its payload', z3.BoolVal(False), tag='hard')
        g['part'] = z3.Store(g['part'], s, 0)
        g['sent'] = z3.Store(g['sent'], s, z3.simplify(sel(g['sent'], s) + 1))

    def zmq_send(X, f, this, a, fr, e):
        s, p, n, fl = [X.val(x) for x in a]
        if isinstance(p, E.CStr):
            t = z3.simplify(n.t)
            if not (z3.is_int_value(t)):
                raise Unsupported('part of a text')
            part(s, p.t if X.entails(X.S.len(p.t) == t) else X.S.sub(p.t, z3.IntVal(0), t), fl.t)
        elif isinstance(p, V) and p.s.k == 'mptr':
            part(s, (p.c[0], p.c[1], n.t), fl.t)
        else:
            raise Unsupported('part to send')
        return V(I32, [n.t])

    def msg_send(order):
        def h(X, f, this, a, fr, e):
            m = X.zmsg(a, f, fr, order[0])
            c = X.zpart(m)
            part(X.val(a[order[1]]), c, X.val(a[2]).t)
            X.zempty(m)
            return V(I32, [c[2]])
        return h
    E_['zmq_send'] = zmq_send
    E_['zmq_msg_send'] = msg_send((0, 1))
    E_['zmq_sendmsg'] = msg_send((1, 0))


def common(X):
    quiet_log(X)
    C = X.contracts.insert

    def raw(X, n, data):
        """a byte buffer with this content"""
        b = X.alloc()
        X.lib.mem_set('len', b, n)
        X.lib.mem_set('live', b, z3.BoolVal(True))
        X.lib.mem_set('data', b, data)
        o = X.alloc(RB)
        (fp, sp), (fs, ss) = field_ptr(X, RB, 'mptr'), field_ptr(X, RB, 'int')
        X.hwrite(RB, fp, o, V(sp, [b, z3.IntVal(0)]))
        X.hwrite(RB, fs, o, V(ss, [n]))
        return o

    def serialize(X, fn, this, a):
        m = X.val(this).t
        n = ser_n(m)
        X.assume(z3.And(n > 0, n < 1 << 31))
        return V(X.shape(fn.ret), [raw(X, n, ser_data(m))])
    C(0, Contract('Message::SerializeToBytes (P01)', MSG + '::SerializeToBytes', serialize))

    def prepend(X, fn, this, a):
        m, n = X.val(this), X.lib.sv(X.val(a[0]))
        s = prepended(n, m_sender(m.t))
        X.assume(was_by(s, n))
        X.write(this, mkmsg(X, s, m_topic(m.t), m_load(m.t)))
        return V(UNIT, [])
    C(0, Contract('Message::WasSentBySender (P07)', MSG + '::WasSentBySender', lambda X, fn, this, a: V(BOOL, [was_by(m_sender(X.val(this).t), X.lib.sv(X.val(a[0])))])))
    C(0, Contract('Message::PrependSender (P07)', MSG + '::PrependSender', prepend))


def own_id(X, o):
    return P18.identifier(X, o, LINK)


def forward(prog, server, client):
    X = engine(prog)
    common(X)
    zmq(X)
    send_side(X)
    E_ = X.lib.ext
    C = X.contracts.insert

    def get(X, fn, this, a):
        if len(a) != 2:
            raise Unsupported('configuration value without a default')
        d, p = X.val(this).t, X.lib.sv(X.val(a[0]))
        s = X.shape(fn.ret)
        v = V(s, [{'bool': c_flag, 'int': c_int, 'str': c_text}[s.k](d, p)])
        X.typed(v)
        return v
    C(0, Contract('Datagram::Get(path, default): a configured value', lambda f: sig0(f).startswith(DG + '::Get<'), get))

    def ctx_new(X, f, this, a, fr, e):
        r = X.alloc() if X.branch(X.fresh(Bool, 'context')) else z3.IntVal(0)
        X.st.ghost['ctx'] = r
        return V(X.shape(f.ret), [r, z3.IntVal(0)])

    def socket(X, f, this, a, fr, e):
        g = X.st.ghost
        t = z3.simplify(X.val(a[1]).t)
        if not z3.is_int_value(t):
            raise Unsupported('socket type')
        X.check('sockets belong to the context of the link', X.val(a[0]).c[0] == g['ctx'], tag='hard')
        k = {PUBT: 'pubs', SUBT: 'subs'}.get(t.as_long())
        if k is None:
            raise Unsupported('socket type')
        g['asked ' + k] = z3.simplify(g['asked ' + k] + 1)
        if not X.branch(X.fresh(Bool, 'socket')):
            return V(X.shape(f.ret), [z3.IntVal(0), z3.IntVal(0)])
        s = X.alloc()
        g['type'] = z3.Store(g['type'], s, t.as_long())
        g['part'] = z3.Store(g['part'], s, 0)
        g['sent'] = z3.Store(g['sent'], s, 0)
        g['subscribed'] = z3.Store(g['subscribed'], s, False)
        g['attached'] = z3.Store(g['attached'], s, 0)
        g[k] = g[k] + (s,)
        return V(X.shape(f.ret), [s, z3.IntVal(0)])

    def attach(X, f, this, a, fr, e):
        s = X.val(a[0]).c[0]
        X.st.ghost['attached'] = z3.Store(X.st.ghost['attached'], s, sel(X.st.ghost['attached'], s) + 1)
        return V(I32, [z3.IntVal(0)]) if server and client else X.newsym(I32, 'attach')

    def setopt(X, f, this, a, fr, e):
        s, o, p, n = X.val(a[0]).c[0], z3.simplify(X.val(a[1]).t), X.val(a[2]), z3.simplify(X.val(a[3]).t)
        if z3.is_int_value(o) and o.as_long() == SUBSCRIBE:
            if isinstance(p, E.CStr) and z3.is_int_value(n) and n.as_long() <= 1:
                if n.as_long() == 0 or X.entails(p.t == X.S.lit(b'A')):
                    X.st.ghost['subscribed'] = z3.Store(X.st.ghost['subscribed'], s, True)
        return X.newsym(I32, 'setsockopt')
    E_.update({'zmq_ctx_new': ctx_new, 'zmq_socket': socket, 'zmq_bind': attach, 'zmq_connect': attach, 'zmq_setsockopt': setopt})

    def create(X, fn, this, a):
        t = X.lib.sv(X.val(a[0]))
        X.check('the link listens on its own bus', this.loc == X.busloc, tag='hard')
        X.check('the link listens to every topic', t == X.S.lit(b'/**/*'), tag='hard')
        if len(a) != 1:
            raise Unsupported('subscriber with a datagram callback')
        s = X.alloc(SUB)
        X.st.ghost['listeners'] = X.st.ghost['listeners'] + (s,)
        return V(X.shape(fn.ret), [s])
    C(0, Contract('Bus::CreateSubscriber (P12)', lambda f: sig0(f).split('<')[0] == BUS + '::CreateSubscriber', create))

    def set_cb(X, fn, this, a):
        X.st.ghost['callbacks'] = X.st.ghost['callbacks'] + ((this.loc, X.val(a[0])),)
        return V(UNIT, [])
    C(0, Contract('Subscriber::SetMessageCallback (P12)', SUB + '::SetMessageCallback', set_cb))
    ctor, ini = the(prog, LINK + '::Link', 1), the(prog, LINK + '::Initialize', 0)
    enabled = lambda d, r: c_flag(d, X.S.lit(r + b'/enabled'))

    def body():
        g = X.st.ghost
        arr = lambda r, n: X.fresh(z3.ArraySort(Int, r), n)
        g.update({'pubs': (), 'subs': (), 'listeners': (), 'callbacks': (), 'type': arr(Int, 'type'), 'part': arr(Int, 'part'), 'sent': arr(Int, 'sent'),
                  'subscribed': arr(Bool, 'subscribed'), 'attached': arr(Int, 'attached'), 'asked pubs': z3.IntVal(0), 'asked subs': z3.IntVal(0), 'ctx': z3.IntVal(0)})
        cfg = X.newsym(X.struct_shape('lp::PluginConfiguration'), 'configuration')
        id_, bus, custom = P18.config(X, cfg)
        X.assume(z3.And(bus > 0, bus < X.st.nxt))
        X.busloc = bus
        X.assume(z3.And(enabled(custom, b'server-role') == server, enabled(custom, b'client-role') == client))
        o = ObjLV(X.alloc(LINK), LINK, X.struct_shape(LINK))
        r = invoke(X, ctor, o, [cfg])
        if r.kind == 'ok':
            r = invoke(X, ini, o, [])
        X.check('setting up the link never throws', z3.BoolVal(r.kind == 'ok'))
        if r.kind != 'ok':
            return
        g = X.st.ghost
        roles = z3.If(enabled(custom, b'server-role'), 1, 0) + z3.If(enabled(custom, b'client-role'), 1, 0)
        X.check('every enabled role gets an outgoing socket', g['asked pubs'] == roles)
        X.check('every enabled role gets an incoming socket', g['asked subs'] == roles)
        for s in g['subs']:
            X.check('an incoming socket receives what links send', sel(g['subscribed'], s))
        for s in g['pubs'] + g['subs']:
            X.check('a socket is attached to one end point', sel(g['attached'], s) == 1)
        id1 = own_id(X, o)
        X.check('the link has the configured name', id1 == id_)
        m = X.newsym(X.M, 'message')
        X.local = m
        mine = was_by(m_sender(m.t), id1)
        # the callback in force is the one set last
        last = {}
        for s, f in g['callbacks']:
            last[s.get_id()] = f
        X.check('the link listens to its bus', z3.BoolVal(len(last) >= 1 and len(last) == len(g['listeners'])))
        X.note = {'echo': mine}
        for f in last.values():
            try:
                X.call_fn_value(f, [V(m.s, list(m.c))])
            except CxxThrow:
                X.check('forwarding never throws', z3.BoolVal(False))
        g = X.st.ghost
        for s in g['pubs']:
            X.check('a message from elsewhere is sent exactly once on every outgoing socket', z3.Implies(z3.Not(mine), sel(g['sent'], s) == 1))
            X.check('a message that came in through the link is not sent', z3.Implies(mine, sel(g['sent'], s) == 0))
            X.check('no message is left half sent', sel(g['part'], s) == 0)
    X.paths = verify(X, body)
    return X


def receive(prog):
    X = engine(prog)
    common(X)
    zmq(X)
    E_ = X.lib.ext
    C = X.contracts.insert
    o = sym_this(X, LINK)
    fn = the(prog, LINK + '::Run', 0)
    X.hooks['atomic_load'] = lambda X, v: X.newsym(v.s, 'atomic')

    def settled(when):
        g = X.st.ghost
        X.check('a message that was received is published ' + when, g['owed'] == 0, tag='hard')

    def recv(order):
        def h(X, f, this, a, fr, e):
            g = X.st.ghost
            m = X.zmsg(a, f, fr, order[0])
            s = X.val(a[order[1]]).c[0]
            X.check('messages are received only from a socket', s != 0, tag='hard')
            if X.branch(g['in.part'] == 0):
                settled('before the next one is received')
                if not X.branch(X.fresh(Bool, 'arrived')):
                    return V(I32, [z3.IntVal(-1)])
                n = X.fresh(Int, 'topic.n')
                X.assume(z3.And(n > 0, n < 1 << 31))
                d = X.fresh(MEM, 'topic')
                g['in.part'] = z3.IntVal(1)
                g['in.id'] = X.fresh(Int, 'arrival')
                g['in.sock'] = s
                g['in.more'] = z3.BoolVal(True)
            else:
                X.check('a message is received from one socket', s == g['in.sock'], tag='hard')
                w = in_msg(g['in.id'])
                n, d = ser_n(w), ser_data(w)
                g['in.part'] = z3.IntVal(0)
                g['in.more'] = z3.BoolVal(False)
                g['in.bad'] = z3.BoolVal(not X.branch(X.fresh(Bool, 'a message')))
                g['owed'] = z3.IntVal(0 if z3.is_true(g['in.bad']) else 1)
                X.assume(z3.And(n >= 0, n < 1 << 31, z3.Or(n > 0, g['in.bad'])))
            b = X.alloc()
            X.lib.mem_set('len', b, n)
            X.lib.mem_set('live', b, z3.BoolVal(True))
            X.lib.mem_set('data', b, d)
            X.write(X.zfield(m, 'block'), V(Int_(), [b]))
            X.write(X.zfield(m, 'size'), V(SZ, [n]))
            return V(I32, [n])
        return h
    E_['zmq_msg_recv'] = recv((0, 1))
    E_['zmq_recvmsg'] = recv((1, 0))
    E_['zmq_msg_more'] = lambda X, f, this, a, fr, e: V(I32, [z3.If(X.st.ghost['in.more'], 1, 0)])

    def getopt(X, f, this, a, fr, e):
        o_ = z3.simplify(X.val(a[1]).t)
        if not (z3.is_int_value(o_) and o_.as_long() == RCVMORE):
            raise Unsupported('socket option')
        p = X.val(a[2])
        if not isinstance(p, E.AddrV):
            raise Unsupported('place of a socket option')
        sh = p.lv.s
        X.write(p.lv, V(sh, [z3.If(X.st.ghost['in.more'], 1, 0)]))
        return V(I32, [z3.IntVal(0)])
    E_['zmq_getsockopt'] = getopt

    def deserialize(X, fn, this, a):
        g = X.st.ghost
        p = X.val(a[0]).t
        ob = ObjLV(p, RB, X.struct_shape(RB))
        (fp, sp), (fs, ss) = field_ptr(X, RB, 'mptr'), field_ptr(X, RB, 'int')
        b, n = X.hread(RB, fp, p, sp), X.hread(RB, fs, p, ss).t
        w = in_msg(g['in.id'])
        i = z3.Const('i!p', Int)
        X.check('what is decoded is the payload that was received', z3.And(p > 0, z3.Or(g['owed'] == 1, g['in.bad']), n == ser_n(w),
                z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), sel(X.lib.mem('data', b.c[0]), b.c[1] + i) == sel(ser_data(w), i)))), tag='hard')
        if X.branch(g['in.bad']):
            raise CxxThrow('lp::exceptions::OperationFailedException')
        return V(X.M, [w])
    C(0, Contract('Message::Deserialize (P01, P27): the message that was serialised; an exception for other bytes', MSG + '::Deserialize', deserialize))

    def publish(X, fn, this, a):
        g = X.st.ghost
        if len(a) == 1:
            m = X.val(a[0]).t
        else:
            m = mkmsg(X, X.S.lit(b''), X.lib.sv(X.val(a[0])), X.val(a[1]).t).t
        w = in_msg(g['in.id'])
        X.check('only a message that was received is published, once', g['owed'] == 1, tag='hard')
        X.check('it is published on the bus of the link', this.loc == X.busloc, tag='hard')
        X.check('it carries the name of the link in front of its sender', m_sender(m) == prepended(X.id0, m_sender(w)), tag='hard')
        X.check('its topic is unchanged', m_topic(m) == m_topic(w), tag='hard')
        X.check('its payload is unchanged', m_load(m) == m_load(w), tag='hard')
        g['owed'] = z3.IntVal(0)
        return V(X.shape(fn.ret), []) if fn.ret.k == 'void' else X.newsym(X.shape(fn.ret), 'r')
    C(0, Contract('Bus::Publish (P10)', BUS + '::Publish', publish))

    def invs(ctx):
        out = []
        for n in ('in.part', 'owed'):
            if n in ctx.mods.ghost:
                for v in (0, 1):
                    out.append(('%s is %d' % (n, v), lambda st, n=n, v=v: st.ghost[n] == v))
        if 'in.more' in ctx.mods.ghost:
            out.append(('parts are outstanding', lambda st: st.ghost['in.more'] == (st.ghost['in.part'] == 1)))
        return out
    X.invs.append(invs)

    def body():
        g = X.st.ghost
        g.update({'in.part': z3.IntVal(0), 'in.more': z3.BoolVal(False), 'owed': z3.IntVal(0), 'in.bad': z3.BoolVal(False), 'in.id': z3.IntVal(0), 'in.sock': z3.IntVal(0)})
        X.id0 = own_id(X, o)
        b = X.val(X.inline(the(prog, PI + '::GetBus'), ObjLV(o.loc, PI, X.struct_shape(PI)), [])).t
        X.assume(z3.And(b > 0, b < X.st.nxt))
        X.busloc = b
        for n, t, _ in X.prog.recs[LINK].fields:
            if X.shape(t).k == 'mptr':
                v = getf(X, o, LINK, n)
                X.assume(z3.And(v.c[0] >= 0, v.c[1] == 0))   # a socket, or null
        r = invoke(X, fn, o, [])
        X.check('Run never throws', z3.BoolVal(r.kind == 'ok'))
        settled('before the link ends')
        X.check('no message is left half received', X.st.ghost['in.part'] == 0)
    X.paths = verify(X, body)
    return X


def tasks(prog):
    roles = [(False, False, 'no role'), (True, False, 'server role'), (False, True, 'client role'), (True, True, 'both roles')]
    return [Task('Link::Run', receive)] + [Task('Link: local messages, ' + n, lambda prog, s=s, c=c: forward(prog, s, c)) for s, c, n in roles]
