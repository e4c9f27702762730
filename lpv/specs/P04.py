"""P04: editing semantics of one payload node (contracts of every public operation of RawDatagram
and of the Datagram operations that forward to it)."""
from tree import *

ASSUMPTIONS = ['nodes handed to the operations are live and well formed (the representation invariant that every operation is shown to keep)',
               'items added to a list and values assigned are not null', 'a node holds fewer than 2^31 items']
U = 'lp::messages::RawDatagram::'


def setup(prog, *a, **k):
    X = engine(prog, *a, **k)
    return X


def call(X, fn, this, args):
    return invoke(X, fn, this, args)


def fn_of(prog, q, types=None, n=None):
    """overload by parameter types (const and reference stripped)"""
    def ok(f):
        ts = [strip_const((t.to if t.k == 'ref' else t).s) for t in f.pt]
        return types is None or ts == list(types)
    return the(prog, q, n if n is not None else (len(types) if types is not None else None), ok)


def through(X, o, how):
    """the node directly, or through a Datagram handle"""
    return o if how == 'raw' else datagram(X, o.loc)


def post_wf(X, o, name):
    X.check(name + ': the node stays well formed', wf(X, o.loc))


def returns_entry(X, name, r, o, dct, key):
    """the returned reference designates the entry: it reads and writes it"""
    D = dct(X, o.loc)
    cur = X.val(r.v).t
    X.check(name + ': yields the entry', cur == z3.Select(D.c[1], key))
    y = X.fresh(Int, 'probe')
    s = X.st.copy()
    if isinstance(r.v, E.LV):
        X.write(r.v, V(X.val(r.v).s, [y]))
        X.check(name + ': assigning to the result replaces the entry', z3.Select(dct(X, o.loc).c[1], key) == y)
        X.st = s


def t_get_key(q, const_ref):
    def run(prog):
        X = setup(prog)
        fn = fn_of(prog, q, ['std::string'])
        name = q.split('::')[-1] + '(key)'

        def body():
            o = node(X)
            k = X.newsym(X.STR, 'key')
            old = X.st.copy()
            a = [X.cell(k)] if fn.pt[0].k == 'ref' else [k]
            r = invoke(X, fn, o, a)
            X.check(name + ' never throws', r.kind == 'ok')
            if r.kind != 'ok':
                return
            had = z3.And(kind(X, o, old) == X.R.D, z3.Select(dic(X, o, old).c[0], k.t))
            D0, D1 = dic(X, o, old), dic(X, o)
            X.check(name + ': the node is a dictionary', kind(X, o) == X.R.D)
            X.check(name + ': the key exists', z3.Select(D1.c[0], k.t))
            e = z3.Select(D1.c[1], k.t)
            X.check(name + ': an existing entry is kept', z3.Implies(had, e == z3.Select(D0.c[1], k.t)))
            X.check(name + ': an absent entry becomes a new empty node', z3.Implies(z3.Not(had), z3.And(e >= old.nxt, e < X.st.nxt, empty_node(X, e))))
            X.check(name + ': the other entries of a dictionary are kept', z3.Implies(kind(X, o, old) == X.R.D, same_dict(X, D0, D1, k.t)))
            kk = kq(X)
            X.check(name + ': a node that was none has only this entry', z3.Implies(kind(X, o, old) != X.R.D, z3.ForAll([kk], z3.Select(D1.c[0], kk) == (kk == k.t))))
            X.check(name + ': nothing else changes', unchanged_but_nodes(X, old, [o.loc]))
            post_wf(X, o, name)
            returns_entry(X, name, r, o, dic, k.t)
        X.paths = verify(X, body)
        return X
    return Task(q + '(key)', run)


def t_get_index(q):
    def run(prog):
        X = setup(prog)
        fn = fn_of(prog, q, ['unsigned int'])
        name = q.split('::')[-1] + '(index)'

        def body():
            o = node(X)
            i = X.newsym(X.shape(fn.pt[0]), 'index')
            old = X.st.copy()
            r = invoke(X, fn, o, [i])
            L0 = lst(X, o, old)
            ok = z3.And(kind(X, o, old) == X.R.L, i.t < L0.t)
            X.check(name + ' throws exactly out of range', ok if r.kind == 'ok' else z3.Not(ok))
            X.check(name + ': a list is unchanged', z3.Implies(kind(X, o, old) == X.R.L, same_node(X, o.loc, old, X.st)))
            X.check(name + ': nothing else changes', unchanged_but_nodes(X, old, [o.loc]))
            post_wf(X, o, name)
            if r.kind == 'ok':
                returns_entry(X, name, r, o, lst, i.t)
            else:
                exc(X, name, r)
        X.paths = verify(X, body)
        return X
    return Task(q + '(index)', run)


def exc(X, name, r):
    """the exception is one of the library's documented ones"""
    t = r.exc.typ if isinstance(r.exc.typ, str) else str(r.exc.typ)
    X.check(name + ': the failure is an lp::exceptions exception', 'lp::exceptions::' in t)


def t_add(prog_q, how):
    def run(prog):
        X = setup(prog)
        fn = the(prog, prog_q, 1 if how == 'raw' else 2)
        name = prog_q.split('::')[-1]

        def body():
            o = node(X)
            x = node(X, 'item')
            old = X.st.copy()
            v = V(X.shape(fn.pt[-1]), [x.loc])
            r = invoke(X, fn, o, [v]) if how == 'raw' else invoke(X, fn, None, [datagram(X, o.loc), v])
            X.check(name + ' never throws', r.kind == 'ok')
            if r.kind != 'ok':
                return
            L0, L1 = lst(X, o, old), lst(X, o)
            n0 = z3.If(kind(X, o, old) == X.R.L, L0.t, z3.IntVal(0))
            i = z3.Const('i!a', Int)
            X.check(name + ': the node is a list', kind(X, o) == X.R.L)
            X.check(name + ': exactly one item is appended at the end', z3.And(L1.t == n0 + 1, z3.Select(L1.c[1], n0) == x.loc))
            X.check(name + ': earlier items are kept in order', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n0), z3.Select(L1.c[1], i) == z3.Select(L0.c[1], i))))
            X.check(name + ': nothing else changes', unchanged_but_nodes(X, old, [o.loc]))
            post_wf(X, o, name)
        X.paths = verify(X, body)
        return X
    return Task(prog_q, run)


def t_remove_key(q, how):
    name = 'Remove(key)' if how == 'raw' else 'Datagram::Remove(key)'
    def run(prog):
        X = setup(prog)
        fn = fn_of(prog, q, ['std::string']) if how == 'raw' else the(prog, q, 2)

        def body():
            o = node(X)
            k = X.newsym(X.STR, 'key')
            old = X.st.copy()
            r = invoke(X, fn, o, [k]) if how == 'raw' else invoke(X, fn, None, [datagram(X, o.loc), k])
            D0 = dic(X, o, old)
            ok = z3.And(kind(X, o, old) == X.R.D, z3.Select(D0.c[0], k.t))
            X.check(name + ' throws exactly on the wrong kind or an absent key', ok if r.kind == 'ok' else z3.Not(ok))
            if r.kind == 'ok':
                D1 = dic(X, o)
                X.check(name + ': the node stays a dictionary', kind(X, o) == X.R.D)
                X.check(name + ': exactly that entry is gone', z3.And(z3.Not(z3.Select(D1.c[0], k.t)), same_dict(X, D0, D1, k.t)))
                X.check(name + ': nothing else changes', unchanged_but_nodes(X, old, [o.loc]))
            else:
                exc(X, name, r)
                X.check(name + ': a failure changes nothing', z3.And(same_node(X, o.loc, old, X.st), unchanged_but_nodes(X, old, [o.loc])))
            post_wf(X, o, name)
        X.paths = verify(X, body)
        return X
    return Task(name, run)


def t_remove_index(q, how):
    name = 'Remove(index)' if how == 'raw' else 'Datagram::Remove(index)'
    def run(prog):
        X = setup(prog)
        fn = fn_of(prog, q, ['unsigned int']) if how == 'raw' else the(prog, q, 2)

        def body():
            o = node(X)
            k = X.newsym(X.shape(fn.pt[-1]), 'index')
            old = X.st.copy()
            r = invoke(X, fn, o, [k]) if how == 'raw' else invoke(X, fn, None, [datagram(X, o.loc), k])
            L0 = lst(X, o, old)
            ok = z3.And(kind(X, o, old) == X.R.L, k.t < L0.t)
            X.check(name + ' throws exactly on the wrong kind or out of range', ok if r.kind == 'ok' else z3.Not(ok))
            if r.kind == 'ok':
                L1 = lst(X, o)
                i = z3.Const('i!a', Int)
                X.check(name + ': the node stays a list', kind(X, o) == X.R.L)
                X.check(name + ': one item less', L1.t == L0.t - 1)
                X.check(name + ': earlier items are kept', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < k.t), z3.Select(L1.c[1], i) == z3.Select(L0.c[1], i))))
                X.check(name + ': later items move up by one', z3.ForAll([i], z3.Implies(z3.And(i >= k.t, i < L1.t), z3.Select(L1.c[1], i) == z3.Select(L0.c[1], i + 1))))
                X.check(name + ': nothing else changes', unchanged_but_nodes(X, old, [o.loc]))
            else:
                exc(X, name, r)
                X.check(name + ': a failure changes nothing', z3.And(same_node(X, o.loc, old, X.st), unchanged_but_nodes(X, old, [o.loc])))
            post_wf(X, o, name)
        X.paths = verify(X, body)
        return X
    return Task(name, run)


def t_query(cls, what):
    """operations that only report: count, type, emptiness, key existence"""
    def run(prog):
        X = setup(prog)
        fn = the(prog, cls + '::' + what)
        name = cls.split('::')[-1] + '::' + what

        def body():
            o = node(X)
            L0, D0, K = lst(X, o), dic(X, o), kind(X, o)
            X.assume(z3.And(L0.t < 1 << 31, X.card(D0.c[0]) < 1 << 31))
            k = X.newsym(X.STR, 'key')
            old = X.st.copy()
            this = o if cls == RAW else datagram(X, o.loc)
            r = invoke(X, fn, this, [k] if what == 'KeyExists' else [])
            cont = z3.Or(K == X.R.L, K == X.R.D)
            if what == 'GetCount':
                X.check(name + ' throws exactly on a non-container', cont if r.kind == 'ok' else z3.Not(cont))
            else:
                X.check(name + ' never throws', r.kind == 'ok')
            if r.kind == 'ok':
                v = X.val(r.v).t
                want = {'GetCount': lambda: z3.If(K == X.R.L, L0.t, X.card(D0.c[0])), 'GetType': lambda: K, 'IsEmpty': lambda: K == X.R.E,
                        'KeyExists': lambda: z3.And(K == X.R.D, z3.Select(D0.c[0], k.t))}[what]()
                X.check(name + ' reports exactly the current content', v == want)
            else:
                exc(X, name, r)
            X.check(name + ' changes nothing', z3.And(same_node(X, o.loc, old, X.st), unchanged_but_nodes(X, old, [o.loc])))
            post_wf(X, o, name)
        X.paths = verify(X, body)
        return X
    return Task(cls + '::' + what, run)


def t_clear(cls):
    def run(prog):
        X = setup(prog)
        fn = the(prog, cls + '::Clear', 0)
        name = cls.split('::')[-1] + '::Clear'

        def body():
            o = node(X)
            K = kind(X, o)
            old = X.st.copy()
            this = o if cls == RAW else datagram(X, o.loc)
            r = invoke(X, fn, this, [])
            cont = z3.Or(K == X.R.L, K == X.R.D)
            X.check(name + ' throws exactly on a non-container', cont if r.kind == 'ok' else z3.Not(cont))
            if r.kind == 'ok':
                X.check(name + ': the node is the same kind of container, without content', z3.And(kind(X, o) == K, lst(X, o).t == 0, X.card(dic(X, o).c[0]) == 0))
                X.check(name + ': nothing else changes', unchanged_but_nodes(X, old, [o.loc]))
            else:
                exc(X, name, r)
                X.check(name + ': a failure changes nothing', z3.And(same_node(X, o.loc, old, X.st), unchanged_but_nodes(X, old, [o.loc])))
            post_wf(X, o, name)
        X.paths = verify(X, body)
        return X
    return Task(cls + '::Clear', run)


def holds(X, n, T, v):
    """the node is a value node holding exactly v as a T"""
    d = value(X, n)
    return z3.And(kind(X, n) == X.R.V, d > 0, d < X.st.nxt, dynof(X, d) == X.clsids[DATA % T], data_content(X, T, d) == v)


def t_assign(name, q, T, how):
    def run(prog):
        X = setup(prog)
        if how == 'raw':
            fn = fn_of(prog, q, [T if T != 'std::string' else 'std::string'])
        else:
            fn = the(prog, q)

        def body():
            if how == 'new':
                v = X.newsym(X.shape(fn.pt[0]), 'value')
                old = X.st.copy()
                r = invoke(X, fn, None, [v])
            else:
                o = node(X)
                v = X.newsym(X.shape(fn.pt[-1].to if fn.pt[-1].k == 'ref' else fn.pt[-1]), 'value')
                old = X.st.copy()
                r = invoke(X, fn, o, [v]) if how == 'raw' else invoke(X, fn, None, [datagram(X, o.loc), v])
            X.check(name + ' never throws', r.kind == 'ok')
            if r.kind != 'ok':
                return
            if how == 'new':
                n = X.val(r.v).c[0]
                X.check(name + ': the node is new', z3.And(n >= old.nxt, n < X.st.nxt))
                keep = []
            else:
                n = o.loc
                keep = [n]
                d = value(X, n)
                X.check(name + ': the value object is new', z3.And(d >= old.nxt, d < X.st.nxt))
            X.check(name + ': the node holds exactly that typed value', holds(X, n, T, v.t))
            X.check(name + ': nothing else changes', unchanged_but_nodes(X, old, keep))
            X.check(name + ': the node stays well formed', wf(X, n))
        X.paths = verify(X, body)
        return X
    return Task(name, run)


def t_assign_data():
    def run(prog):
        X = setup(prog)
        fn = fn_of(prog, U + 'operator=', ['std::shared_ptr<lp::messages::DataBase>'])
        name = 'operator=(shared value)'

        def body():
            o = node(X)
            d = sym_this(X, BASE, 'data')
            X.assume(z3.Or([is_data(X, T, d.loc) for T in SCALARS.values()]))
            old = X.st.copy()
            s = X.shape(fn.pt[0])
            v = V(s, [d.loc])
            r = invoke(X, fn, o, [X.cell(v) if fn.pt[0].k == 'ref' else v])
            X.check(name + ' never throws', r.kind == 'ok')
            if r.kind == 'ok':
                X.check(name + ': the node holds exactly that value', z3.And(kind(X, o) == X.R.V, value(X, o) == d.loc))
                X.check(name + ': nothing else changes', unchanged_but_nodes(X, old, [o.loc]))
                post_wf(X, o, name)
        X.paths = verify(X, body)
        return X
    return Task('RawDatagram::operator=(shared value)', run)


def t_read(name, q, T, how):
    """typed read: the value, or an exception for any other kind or type"""
    def run(prog):
        X = setup(prog)
        fn = the(prog, q, 0 if how == 'raw' else 1)

        def body():
            o = node(X)
            d = value(X, o)
            old = X.st.copy()
            r = invoke(X, fn, o, []) if how == 'raw' else invoke(X, fn, None, [datagram(X, o.loc)])
            ok = z3.And(kind(X, o, old) == X.R.V, dynof(X, d) == X.clsids[DATA % T])
            X.check(name + ' throws exactly on another kind or type', ok if r.kind == 'ok' else z3.Not(ok))
            if r.kind == 'ok':
                X.check(name + ' yields the value', X.val(r.v).t == data_content(X, T, d, old))
            else:
                exc(X, name, r)
            X.check(name + ' changes nothing', z3.And(same_node(X, o.loc, old, X.st), unchanged_but_nodes(X, old, [])))
        X.paths = verify(X, body)
        return X
    return Task(name, run)


def t_is_type(name, q, T):
    def run(prog):
        X = setup(prog)
        fn = the(prog, q, 0)

        def body():
            o = node(X)
            d = value(X, o)
            old = X.st.copy()
            r = invoke(X, fn, o, [])
            X.check(name + ' never throws', r.kind == 'ok')
            if r.kind == 'ok':
                X.check(name + ' reports the type of the value', X.val(r.v).t == z3.And(kind(X, o, old) == X.R.V, dynof(X, d) == X.clsids[DATA % T]))
            X.check(name + ' changes nothing', z3.And(same_node(X, o.loc, old, X.st), unchanged_but_nodes(X, old, [])))
        X.paths = verify(X, body)
        return X
    return Task(name, run)


def t_handle_key():
    """Datagram::operator[](key): a handle of the entry"""
    def run(prog):
        X = setup(prog)
        fn = fn_of(prog, DG + '::operator[]', ['std::string'])
        name = 'Datagram::operator[](key)'

        def body():
            o = node(X)
            k = X.newsym(X.STR, 'key')
            old = X.st.copy()
            r = invoke(X, fn, datagram(X, o.loc), [k])
            X.check(name + ' never throws', r.kind == 'ok')
            if r.kind != 'ok':
                return
            n = handle_node(X, r.v)
            D0, D1 = dic(X, o, old), dic(X, o)
            had = z3.And(kind(X, o, old) == X.R.D, z3.Select(D0.c[0], k.t))
            X.check(name + ': the node is a dictionary with this key', z3.And(kind(X, o) == X.R.D, z3.Select(D1.c[0], k.t)))
            X.check(name + ': yields the entry', n == z3.Select(D1.c[1], k.t))
            X.check(name + ': an existing entry is kept', z3.Implies(had, n == z3.Select(D0.c[1], k.t)))
            X.check(name + ': an absent entry becomes a new empty node', z3.Implies(z3.Not(had), z3.And(n >= old.nxt, n < X.st.nxt, empty_node(X, n))))
            X.check(name + ': the other entries of a dictionary are kept', z3.Implies(kind(X, o, old) == X.R.D, same_dict(X, D0, D1, k.t)))
            X.check(name + ': nothing else changes', unchanged_but_nodes(X, old, [o.loc]))
            post_wf(X, o, name)
        X.paths = verify(X, body)
        return X
    return Task('Datagram::operator[](key)', run)


def t_handle_index():
    def run(prog):
        X = setup(prog)
        fn = fn_of(prog, DG + '::operator[]', ['unsigned int'])
        name = 'Datagram::operator[](index)'

        def body():
            o = node(X)
            i = X.newsym(X.shape(fn.pt[0]), 'index')
            old = X.st.copy()
            r = invoke(X, fn, datagram(X, o.loc), [i])
            L0 = lst(X, o, old)
            ok = z3.And(kind(X, o, old) == X.R.L, i.t < L0.t)
            X.check(name + ' throws exactly out of range', ok if r.kind == 'ok' else z3.Not(ok))
            X.check(name + ': a list is unchanged', z3.Implies(kind(X, o, old) == X.R.L, same_node(X, o.loc, old, X.st)))
            X.check(name + ': nothing else changes', unchanged_but_nodes(X, old, [o.loc]))
            if r.kind == 'ok':
                X.check(name + ': yields the item', handle_node(X, r.v) == z3.Select(L0.c[1], i.t))
            post_wf(X, o, name)
        X.paths = verify(X, body)
        return X
    return Task('Datagram::operator[](index)', run)


def t_new(name, q, types, make):
    def run(prog):
        X = setup(prog)
        fn = fn_of(prog, q, types)

        def body():
            args = [X.newsym(X.shape(t), 'arg') for t in fn.pt]
            if types:
                R = X.R
                X.assume(z3.Or([args[0].t == x for x in (R.E, R.L, R.D, R.V)]))
            old = X.st.copy()
            if q.startswith(DG):
                c = X.cell(X.newsym(X.struct_shape(DG), 'made'), X.struct_shape(DG))
                r = invoke(X, fn, c, args)
                n = X.val(c).c[0]
            else:
                n = X.alloc(RAW)
                X.typed(V(PTR, [n]))
                r = invoke(X, fn, raw(X, n), args)
            X.check(name + ' never throws', r.kind == 'ok')
            if r.kind == 'ok':
                want = args[0].t if types else X.R.E
                X.check(name + ': the node is of the requested kind and without content', z3.And(kind(X, n) == want, lst(X, n).t == 0, z3.Implies(want != X.R.V, value(X, n) == 0)))
                X.check(name + ': the node is well formed', wf(X, n))
                X.check(name + ': the node is new', z3.And(n >= old.nxt, n < X.st.nxt))
                X.check(name + ': nothing else changes', unchanged_but_nodes(X, old, []))
        X.paths = verify(X, body)
        return X
    return Task(name, run)


def tasks(prog):
    r = [t_get_key(U + 'Get', True), t_get_key(U + 'operator[]', False), t_get_index(U + 'Get'), t_get_index(U + 'operator[]'),
         t_add(U + 'Add', 'raw'), t_add('lpv::addNode', 'dg'),
         t_remove_key(U + 'Remove', 'raw'), t_remove_key('lpv::removeKey', 'dg'), t_remove_index(U + 'Remove', 'raw'), t_remove_index('lpv::removeIndex', 'dg'),
         t_clear(RAW), t_clear(DG), t_handle_key(), t_handle_index(), t_assign_data()]
    r += [t_query(c, w) for c in (RAW, DG) for w in ('GetCount', 'GetType', 'KeyExists')] + [t_query(DG, 'IsEmpty')]
    for n, T in SCALARS.items():
        r += [t_assign('RawDatagram::operator=(%s)' % T, U + 'operator=', T, 'raw'), t_assign('Datagram::operator=(%s)' % T, 'lpv::assign' + n, T, 'dg'),
              t_assign('new Datagram(%s)' % T, 'lpv::make' + n, T, 'new'), t_assign('new RawDatagram(%s)' % T, 'lpv::raw' + n, T, 'new'),
              t_read('RawDatagram::Get<%s>()' % T, U + 'Get<%s>' % T, T, 'raw'), t_read('Datagram::Get<%s>()' % T, 'lpv::get' + n, T, 'dg'),
              t_is_type('IsOfValueType<%s>' % T, U + 'IsOfValueType<%s>' % T, T)]
    r += [t_new('new RawDatagram()', U + 'RawDatagram', [], 0), t_new('new RawDatagram(kind)', U + 'RawDatagram', ['lp::messages::RawDatagramType'], 0),
          t_new('new Datagram(kind)', DG + '::Datagram', ['lp::messages::RawDatagramType'], 0)]
    return r
