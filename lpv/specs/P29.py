"""P29: a blocking action request returns the answer or gives up.

ActionConsumer::Request is verified against interference by the very callback it registers: wherever another thread
may run - while no lock is held that the callback takes, and inside every wait - the callback is executed once, with
an arbitrary payload (RequestAsync by contract: registers the callback, which is invoked at most once, P13).  Proved
for the call: it returns an equal copy of the answer if that arrived before it gave up, an empty payload otherwise,
and gives up only after a wait for the full timeout.  Proved for the callback: run after the call has returned it
reaches nothing of the finished call - its frame is removed from the state, and what it refers to is kept alive by
pointers it owns; what both sides use is guarded by a common lock; an answer wakes the wait it belongs to."""
import re
import P13
from P13 import *
import chrono
from engine import HeapLV, CellLV

HARNESS_SAN = 'address'
ASSUMPTIONS = ['RequestAsync registers the callback, which is invoked at most once and never while RequestAsync or the calling thread holds a lock it needs (P13)',
               'a bounded wait ends after its timeout at the latest', 'the timeout is not negative',
               'payloads are finite trees of live nodes (structural induction)']
TRUSTED = ['std::condition_variable, std::mutex and std::shared_ptr as the C++ standard says']


class Other:
    """the thread that answers"""
    def __init__(self, X, base):
        self.X, self.base = X, base      # objects from base on are made by the call
        self.me = False

    # ---- ghost state lives in the path state: cb, answered, acc, ev, waits, time, waited (nanoseconds)
    def g(self, k, d=None):
        return self.X.st.ghost.get('o.' + k, d)

    def set(self, k, v):
        self.X.st.ghost['o.' + k] = v

    def shared(self, loc):
        b, n = E.lin(loc)
        return b is not None and z3.is_const(b) and b.eq(E.lin(self.base)[0]) and n >= E.lin(self.base)[1]

    def access(self, X, key, loc, how):
        if key[0] == '$' or self.g('cb') is None or not self.shared(loc):
            return
        self.set('acc', self.g('acc', ()) + ((self.me, key, loc, how, X.st.held, X.where),))
        if self.me and how == 'write':
            self.set('ev', self.g('ev', ()) + (('write', X.st.held),))

    def lock(self, X, l):
        if self.me:
            for h in self.g('main', ()):
                if z3.is_true(z3.simplify(X.same_lock(h, l))):
                    raise E.Infeasible()        # waits until the other thread gives the lock back: a later moment
            self.set('ev', self.g('ev', ()) + (('lock', l),))
        else:
            fact(X, 'Request does not take a lock it holds', not any(z3.is_true(z3.simplify(X.same_lock(h, l))) for h in X.st.held))
            self.may()

    def unlock(self, X, l):
        if not self.me:
            self.set('gone', l)

    def notify(self, X, this):
        if self.me:
            self.set('ev', self.g('ev', ()) + (('notify', X.lock_id(this)),))

    def may(self):
        """the answer may arrive now"""
        X = self.X
        if self.me or self.g('cb') is None or self.g('answered'):
            return
        if X.choose([None, None]):
            self.run()

    def run(self):
        X = self.X
        cb, n = self.g('cb'), self.g('answer')
        held = X.st.held
        self.set('main', held)
        self.set('ev', ())
        X.st.held = ()
        self.me = True
        try:
            c = X.st.clos[cb]
            X.call_fn_value(V(E.FN, [z3.IntVal(cb)]), [dg_arg(X, c.fn, 0, n)])
        except CxxThrow:
            fact(X, 'the callback never throws', False)
            raise E.Infeasible()
        finally:
            self.me = False
        fact(X, 'the callback gives back every lock', len(X.st.held) == 0)
        X.st.held = held
        self.set('answered', True)
        ev = self.g('ev', ())
        for cv, m in self.g('waits', ()):
            fact(X, 'an answer wakes the waiting call', wakes(X, ev, cv, m))
        self.set('ran', ev)

    def now(self, X):
        """the clocks run between any two looks at them"""
        t = X.fresh(Int, 'now')
        X.assume(t >= self.g('time'))
        self.set('time', t)
        return t

    def passed(self, d):
        t = self.X.fresh(Int, 'now')
        self.X.assume(t >= self.g('time') + d)
        self.set('time', t)

    def sleep(self, X, f, a):
        if self.me or f.n != 'sleep_for':
            raise Unsupported('sleeping')
        self.may()
        d = chrono.nanos(f.pt[0], a[0])
        self.spend(X, d)
        self.passed(z3.If(d > 0, d, z3.IntVal(0)))

    def spend(self, X, d):
        """time is going to be spent waiting: at most d"""
        d = z3.If(d > 0, d, z3.IntVal(0))
        ground(X, 'Request waits no longer than its timeout', self.g('waited') + d <= self.limit)

    def wait(self, X, fd, this, a, fr, e):
        name = (re.findall(r'condition_variable(?:_any)?::(wait\w*)', fd.sig) or [''])[0]
        vals = [X.val(x) for x in a]
        pred = [v for v in vals if isinstance(v, V) and v.s.k == 'fn']
        mutex = [v.m for v in vals if getattr(v, 'm', None) is not None]
        if self.me:
            fact(X, 'the callback never waits', False)
            raise E.Infeasible()
        if name == 'wait':
            fact(X, 'Request waits no longer than its timeout', False)
            raise E.Infeasible()
        d = [chrono.nanos(t, v) for t, v in zip(fd.pt, vals) if isinstance(v, V) and v.s.k == 'int' and chrono.chrono(t)]
        if name not in ('wait_for', 'wait_until') or len(mutex) != 1 or len(d) != 1:
            raise Unsupported('wait of an unknown kind')
        same = lambda h: z3.is_true(z3.simplify(X.same_lock(h, mutex[0])))
        fact(X, 'the lock of a wait is held', any(same(h) for h in X.st.held))
        if pred:
            self.set('waits', self.g('waits', ()) + ((X.lock_id(this), mutex[0]),))
            if X.branch(X.val(X.call_fn_value(pred[-1], [], None)).t):
                return V(BOOL, [z3.BoolVal(True)])
        d = d[0] if name == 'wait_for' else d[0] - self.now(X)
        self.spend(X, d)
        d = z3.simplify(z3.If(d > 0, d, z3.IntVal(0)))
        held = X.st.held
        X.st.held = tuple(h for h in held if not same(h))
        self.may()
        X.st.held = held
        if X.branch(X.val(X.call_fn_value(pred[-1], [], None)).t) if pred else X.choose([None, None]):
            w = X.fresh(Int, 'waited')
            X.assume(z3.And(w >= 0, w <= d))        # woken, for a reason or for none
            over = False
        else:
            w, over = d, True
        self.passed(w)
        self.set('waited', self.g('waited') + w)
        if pred:
            return V(BOOL, [z3.BoolVal(not over)])
        s = X.shape(fd.ret)
        return V(s, [z3.IntVal(1 if over else 0)])      # cv_status


def wakes(X, ev, cv, m):
    """what the callback changes is changed while the waiter cannot miss it, and the waiter is woken afterwards"""
    same = lambda a, b: z3.is_true(z3.simplify(X.same_lock(a, b)))
    safe = True
    for e in ev:
        if e[0] == 'write':
            safe = any(same(h, m) for h in e[1])
        elif e[0] == 'lock':
            safe = safe or same(e[1], m)
        elif e[0] == 'notify' and same(e[1], cv) and safe:
            return True
    return False


def places(lv):
    """the local variable a place belongs to"""
    k = lv.key() if hasattr(lv, 'key') else None
    while k is not None and k[0] == 's':
        k = k[1]
    return k[1] if k is not None and k[0] == 'c' else None


def request(prog):
    X = P13.prepare(prog)
    fn = the(prog, CONS + '::Request', 2)

    def ask(X, f, this, a):
        O = X.O
        O.set('asked', O.g('asked', 0) + 1)
        p = X.val(a[0]).c[0]
        for part in iso_parts(X, p, X.n, X.st, X.old):
            X.check('Request sends an equal request, %s' % part[0], part[1])
        c = z3.simplify(X.val(a[1]).t) if len(a) > 1 else z3.IntVal(0)
        if not z3.is_int_value(c) or c.as_long() <= 0:
            raise Unsupported('the callback of a blocking request')
        X.check('Request asks its own consumer', this.loc == X.c.loc)
        O.set('cb', c.as_long())
        O.set('acc', ())
        O.may()
        return V(UNIT, [])
    X.contracts.insert(0, Contract('ActionConsumer::RequestAsync: the callback is invoked at most once, with the answer (P13)', CONS + '::RequestAsync', ask))

    def body():
        P13.reset(X)
        X.c = sym_this(X, CONS, 'consumer')
        X.n = node(X).loc
        ans = node(X, 'answer').loc
        O = X.O = Other(X, X.st.nxt)
        O.set('answer', ans)
        t = X.newsym(X.shape(fn.pt[1]), 'timeout')
        O.timeout = t.t
        X.assume(t.t >= 0)
        O.limit = chrono.nanos(fn.pt[1], t) if chrono.chrono(fn.pt[1]) else t.t * 1000000
        O.set('time', z3.IntVal(0))
        O.set('waited', z3.IntVal(0))
        guard = X.hooks['access']

        def access(X, key, loc, how):
            guard(X, key, loc, how)
            O.access(X, key, loc, how)
        X.hooks['access'], X.hooks['lock'], X.hooks['unlock'], X.hooks['notify'], X.hooks['wait'] = access, O.lock, O.unlock, O.notify, O.wait
        X.hooks['now'], X.hooks['sleep'] = O.now, O.sleep
        X.hooks['atomic_load'] = None
        X.old = old = X.st.copy()
        cells = set(X.st.cells)
        r = invoke(X, fn, X.c, [dg_arg(X, fn, 0, X.n), t])
        X.check('Request never throws', z3.BoolVal(r.kind == 'ok'))
        if r.kind != 'ok':
            return
        X.check('Request asks exactly once', z3.BoolVal(O.g('asked', 0) == 1))
        fact(X, 'Request gives back every lock', len(X.st.held) == 0)
        res = X.val(r.v)
        if O.g('answered'):
            for part in iso_parts(X, res.c[0], ans, X.st, old):
                X.check('Request returns the answer that arrived, %s' % part[0], part[1])
        else:
            X.check('Request returns an empty payload without an answer', kind(X, res.c[0]) == X.R.E)
            ground(X, 'Request gives up only after the whole timeout', O.g('time') >= O.limit)
        X.check('Request changes nothing that existed before', unchanged(X, old))
        if O.g('cb') is None:
            return
        # the frame of the call is gone
        cl = X.st.clos[O.g('cb')]
        keep = set(cells)
        owned = []
        for c in X.st.clos.values():
            for d in c.own:
                keep.add(places(c.vars[d]))
                v = X.val(c.vars[d])
                if v.s.k == 'ptr' and 'shared_ptr' in c.own[d].s and c is cl:
                    owned.append(v.t)
        for d, lv in cl.vars.items():
            loc = None
            if d in cl.own:
                v = X.val(lv)
                if v.s.k == 'ptr' and 'shared_ptr' not in cl.own[d].s:
                    loc = v.t
            elif isinstance(lv, (HeapLV, ObjLV)):
                loc = lv.loc
            if loc is not None and O.shared(loc):
                X.check('a late answer finds alive what it refers to', z3.Or([loc == o for o in owned]) if owned else z3.BoolVal(False), tag='hard')
        if not O.g('answered'):
            for k in [k for k in X.st.cells if k not in keep]:
                del X.st.cells[k]
            try:
                O.run()
                ok = True
            except E.DeadCell:
                ok = False
            fact(X, 'a late answer touches nothing of the finished call', ok)
        acc = O.g('acc', ())
        for key in sorted({(x[1], x[2].sexpr()) for x in acc}, key=str):
            xs = [x for x in acc if (x[1], x[2].sexpr()) == key]
            if {x[0] for x in xs} == {True, False} and any(x[3] == 'write' for x in xs):
                common = [h for h in xs[0][4] if all(any(z3.is_true(z3.simplify(X.same_lock(h, g))) for g in x[4]) for x in xs)]
                fact(X, 'what the call shares with its callback is only used under a common lock (%s::%s)' % key[0], bool(common))
    X.paths = verify(X, body)
    return X


def tasks(prog):
    return [Task('ActionConsumer::Request', request)]
