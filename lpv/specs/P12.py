"""P12: deleting a subscriber or publisher (contracts of Create*, Delete*, Contains*, Reset)."""
from bus import *

ASSUMPTIONS = ['a participant handed to Delete* or Contains* is not null',
               'templates are verified at the argument types (text, std::function); the instances differ only in how the callback is converted']
KINDS = {'Subscriber': SUB, 'Publisher': PUB}


def start(prog, cls):
    X = engine(prog)
    o = sym_this(X, BUS)
    bus_invariant(X, o)
    X.assume(distinct_seq(getf(X, o, BUS, f_list(X, cls))))
    count_calls(X)
    searching(X, o, cls)
    return X, o


def obj(X, cls, loc):
    return ObjLV(loc, cls, X.struct_shape(cls))


def searching(X, o, cls):
    """loop invariants of a search for a participant, and of its removal, written as loops over the registry"""
    ls = f_list(X, cls)

    def invs(ctx):
        out = []
        e = getf(X, o, BUS, ls, ctx.entry)
        qs = [(c, lambda st, c=c: st.cells[c].i) for c, _ in ctx.iters()] + [(c, lambda st, c=c: st.cells[c].t) for c, _ in ctx.ints()]
        i = z3.Const('i!sk', Int)
        el = lambda v, j: z3.Select(v.c[1], j)
        for k, x in enumerate(X.sought):
            for c, q in qs:
                out.append(('participant %d is not among the first %s' % (k, c), lambda st, q=q, x=x: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < q(st)), el(getf(X, o, BUS, ls, st), i) != x))))

                def gone(st, q=q, x=x):
                    v = getf(X, o, BUS, ls, st)
                    at = X.place(e, x)
                    whole = z3.And(v.t == e.t, z3.Or(at < 0, q(st) <= at), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < e.t), el(v, i) == el(e, i))))
                    less = z3.And(v.t == e.t - 1, at >= 0, q(st) >= at, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v.t), el(v, i) == z3.If(i < at, el(e, i), el(e, i + 1)))),
                                  z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < e.t, i != at), el(e, i) == el(v, z3.If(i < at, i, i - 1))), patterns=[el(e, i)]))
                    return z3.Or(whole, less)
                if (BUS, ls) in ctx.mods.heap:
                    out.append(('participant %d is taken out once passed by %s' % (k, c), gone))
        return out

    def place(v, x):
        """where x is in a registry without duplicates, -1 if nowhere"""
        f = z3.Function('place', v.c[1].sort(), Int, Int, Int)
        p = f(v.c[1], v.t, x)
        i = z3.Const('i!pl', Int)
        X.assume(z3.Or(z3.And(p >= 0, p < v.t, z3.Select(v.c[1], p) == x), z3.And(p == -1, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v.t), z3.Select(v.c[1], i) != x)))))
        return p
    X.place = place
    X.invs.append(invs)


def contains(kind):
    def run(prog):
        cls = KINDS[kind]
        X, o = start(prog, cls)
        fn = the(prog, BUS + '::Contains' + kind, 1)

        def body():
            no_calls(X)
            x = sym_this(X, cls, 'participant')
            X.sought = [x.loc]
            old = X.st.copy()
            r = invoke(X, fn, o, [V(X.shape(fn.pt[0]), [x.loc])])
            X.check('Contains%s never throws' % kind, r.kind == 'ok')
            if r.kind == 'ok':
                X.check('Contains%s reports exactly the registered ones' % kind, X.val(r.v).t == member(getf(X, o, BUS, f_list(X, cls), old), x.loc))
            X.check('Contains%s changes nothing' % kind, z3.And(unchanged(X, old), calls(X) == 0))
        X.paths = verify(X, body)
        return X
    return Task('Contains' + kind, run)


def delete(kind):
    def run(prog):
        cls = KINDS[kind]
        X, o = start(prog, cls)
        fn = the(prog, BUS + '::Delete' + kind, 1)
        has = the(prog, BUS + '::Contains' + kind, 1)

        def body():
            no_calls(X)
            x = sym_this(X, cls, 'participant')
            y = sym_this(X, cls, 'other')
            X.sought = [x.loc, y.loc]
            old = X.st.copy()
            ls = f_list(X, cls)
            l0 = getf(X, o, BUS, ls, old)
            r = invoke(X, fn, o, [V(X.shape(fn.pt[0]), [x.loc])])
            X.check('Delete%s never throws' % kind, r.kind == 'ok')
            if r.kind != 'ok':
                return
            X.check('Delete%s invokes nothing' % kind, calls(X) == 0)
            l1 = getf(X, o, BUS, ls)
            X.check('the registry keeps no duplicates', distinct_seq(l1))
            X.check('the registry keeps only participants', seq_all(l1, lambda e, i: z3.And(e > 0, e < X.st.nxt)))
            cb = f_callback(X, cls)
            X.check('Delete%s changes only the registry and the participant' % kind, unchanged_but(X, old, [(BUS, ls, o.loc), (cls, cb, x.loc)]))
            h = invoke(X, has, o, [V(X.shape(fn.pt[0]), [y.loc])])
            X.check('exactly the deleted one is no longer contained', X.val(h.v).t == z3.And(member(l0, y.loc), y.loc != x.loc) if h.kind == 'ok' else z3.BoolVal(False))
            if kind == 'Subscriber':
                m = X.newsym(X.M, 'message')
                r = invoke(X, the(prog, SUB + '::Receive', 1), obj(X, SUB, x.loc), [m])
                X.check('a deleted subscriber invokes nothing', z3.And(calls(X) == 0, z3.BoolVal(r.kind == 'ok')))
            else:
                b = X.st.copy()
                d = X.newsym(X.D, 'datagram')
                r = invoke(X, the(prog, PUB + '::Publish', 1), obj(X, PUB, x.loc), [d])
                X.check('a deleted publisher publishes nothing', z3.And(calls(X) == 0, unchanged(X, b), z3.BoolVal(r.kind == 'ok')))
        X.paths = verify(X, body)
        return X
    return Task('Delete' + kind, run)


def create(kind, maker, nargs):
    def run(prog):
        cls = KINDS[kind]
        X, o = start(prog, cls)
        fn = the(prog, maker, nargs)
        has = the(prog, BUS + '::Contains' + kind, 1)

        def body():
            no_calls(X)
            y = sym_this(X, cls, 'other')
            X.sought = [y.loc]
            a = [o] + [sym_arg(X, t, 'arg%d' % i) for i, t in enumerate(fn.pt[1:])]
            old = X.st.copy()
            ls = f_list(X, cls)
            l0 = getf(X, o, BUS, ls, old)
            r = invoke(X, fn, None, a)
            X.check('Create%s never throws' % kind, r.kind == 'ok')
            if r.kind != 'ok':
                return
            x = X.val(r.v).t
            X.sought.append(x)
            l1 = getf(X, o, BUS, ls)
            X.check('Create%s makes a new participant' % kind, z3.And(x >= old.nxt, x < X.st.nxt))
            X.check('Create%s registers it and keeps the others' % kind, z3.And(l1.t == l0.t + 1, z3.Select(l1.c[1], l0.t) == x, keeps(l0, l1)))
            X.check('the registry keeps no duplicates', distinct_seq(l1))
            X.check('Create%s changes only the registry' % kind, unchanged_but(X, old, [(BUS, ls, o.loc)]))
            X.check('Create%s invokes nothing' % kind, calls(X) == 0)
            T = the(prog, PART + '::GetTopic', 0)
            X.check('the new participant has the topic', X.val(X.inline(T, obj(X, PART, x), [])).t == X.val(a[1]).t)
            h = invoke(X, has, o, [V(X.shape(has.pt[0]), [x])])
            X.check('the new participant is contained', X.val(h.v).t if h.kind == 'ok' else z3.BoolVal(False))
            h = invoke(X, has, o, [V(X.shape(has.pt[0]), [y.loc])])
            X.check('the others are contained as before', X.val(h.v).t == member(l0, y.loc) if h.kind == 'ok' else z3.BoolVal(False))
        X.paths = verify(X, body)
        return X
    return Task('Create%s/%d' % (kind, nargs - 1), run)


def keeps(a, b):
    i = z3.Const('i!k', Int)
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a.t), z3.Select(a.c[1], i) == z3.Select(b.c[1], i)))


def tasks(prog):
    return [contains('Subscriber'), contains('Publisher'), delete('Subscriber'), delete('Publisher'),
            create('Subscriber', 'lpv::createSubscriber', 2), create('Subscriber', 'lpv::createSubscriberWithCallback', 3),
            create('Publisher', 'lpv::createPublisher', 2)]
