"""P28: a root bus that is told to stop ends its run loop.

Termination of the real loop by ranking arguments over the contracts.  The running flag is the rely: other threads
may clear it at any moment and then leave it cleared (proved for every operation but Start), so every load yields
the negation of the ghost `stop`, which only ever becomes true.  Publications by other threads enter the queue
whenever a lock is taken or given back.  Proved of Run: every loop has a measure that decreases with every
iteration, or at least with every iteration that begins after the bus was told to stop; every wait is bounded, or
cannot miss the stop; the flag is never set.  Proved of everything else on the way: Distribute and the other
operations have terminating loops and never wait.  Stop clears the flag and takes no lock that is held while callbacks run."""
import re
from fractions import Fraction
import chrono
from bus import *
from smt import *
from engine import HeapLV
import P14
from P10 import new_root

ASSUMPTIONS = ['callbacks return', 'Start is not called again while the bus is being stopped',
               'a bounded wait ends after its timeout and a free mutex is eventually given to a thread that waits for it',
               'the tree of child buses is finite (P11); its buses terminate their part of a distribution (induction over the tree)',
               'the run loop is not started after the stop (a stop that precedes the start has no effect)']
LIMIT_MS = 10000


class Flag:
    """the running flag of bus o under interference"""
    def __init__(self, X, o):
        self.X, self.o, self.f, self.last = X, o, f_running(X), None

    def advance(self):
        """the bus may be told to stop now"""
        X = self.X
        s = X.fresh(Bool, 'stop')
        X.assume(z3.Implies(X.st.ghost['stop'], s))
        X.st.ghost['stop'] = s

    def access(self, X, key, loc, how):
        self.last = (key, loc, how)

    def load(self, X, v):
        if self.last and self.last[0] == (BUS, self.f) and z3.simplify(self.last[1] == self.o.loc).eq(z3.BoolVal(True)):
            self.advance()
            return V(v.s, [z3.Not(X.st.ghost['stop'])])
        return X.newsym(v.s, 'atomic')


def millis(t, v):
    """a duration value in milliseconds, rounded towards zero"""
    return chrono.in_unit(t, v, Fraction(1, 1000))


def stop_events(prog):
    """what Stop does, in order: locks taken and given back, the flag written, waits notified"""
    X = engine(prog)
    fn = the(prog, BUS + '::Stop', 0)
    o = sym_this(X, BUS)
    ev = []
    f = f_running(X)

    def rec(*e):
        X.st.ghost['ev'] = X.st.ghost.get('ev', ()) + (e,)

    X.hooks['lock'] = lambda X, l: rec('lock', l[2] if l[0] == 'h' else None)
    X.hooks['unlock'] = lambda X, l: rec('unlock', l[2] if l[0] == 'h' else None)
    X.hooks['notify'] = lambda X, this: rec('notify', this.f if isinstance(this, HeapLV) else None)
    X.hooks['access'] = lambda X, key, loc, how: rec('store', None) if key == (BUS, f) and how == 'write' else None

    def body():
        invoke(X, fn, o, [])
        ev.append(X.st.ghost.get('ev', ()))
    try:
        X.explore(body)
    except Unsupported:
        return []
    return ev


def notified(ev, mutex, cv):
    """whoever waits for cv with the mutex and a condition that includes the flag is woken: the flag is written
    while the mutex is held, or the mutex is taken afterwards, before the notification"""
    def one(es):
        held, stored, order = set(), False, False
        for k, n in es:
            if k == 'lock':
                held.add(n)
                order = order or stored and n == mutex
            elif k == 'unlock':
                held.discard(n)
            elif k == 'store':
                stored, order = True, mutex in held
            elif k == 'notify' and n == cv and stored and order:
                return True
        return False
    return bool(ev) and all(one(es) for es in ev)


CALLBACK_LOCKS = {}


def run(prog):
    X = engine(prog)
    fn = the(prog, BUS + '::Run', 0)
    ev = stop_events(prog)

    q = f_queue(X)

    def others(X):
        """anything may be published meanwhile"""
        o = X.flag.o
        v = getf(X, o, BUS, q)
        X.ghosting += 1
        X.hwrite(BUS, q, o.loc, X.newsym(v.s, 'queue'))
        X.ghosting -= 1

    def lock(X, l):
        if not quiet[0]:
            X.flag.advance()
            if l[0] == 'h' and l[1] == BUS and not any(h[0] == 'h' and h[1] == BUS and h[2] in X.qlocks for h in X.st.held):
                others(X)

    def unlock(X, l):
        if not quiet[0] and l[0] == 'h' and l[1] == BUS:
            others(X)

    quiet = [False]

    def wait(X, fd, this, a, fr, e):
        name = (re.findall(r'condition_variable(?:_any)?::(wait\w*)', fd.sig) or [''])[0]
        vals = [X.val(x) for x in a]
        pred = [v for v in vals if isinstance(v, V) and v.s.k == 'fn']
        mutex = None
        for v in vals:
            m = getattr(v, 'm', None)
            if m is not None and m[0] == 'h':
                mutex = m[2]
        X.flag.advance()
        others(X)
        cv = this.f if isinstance(this, HeapLV) else None
        safe = notified(ev, mutex, cv) and bool(pred)
        if name == 'wait_for':
            d = next((millis(t, v) for t, v in zip(fd.pt, vals) if isinstance(v, V) and v.s.k == 'int'), None)
            if d is None:
                raise Unsupported('duration of a wait')
            X.check('a wait is over in bounded time, or the stop ends it', z3.Or(z3.And(d <= LIMIT_MS), z3.BoolVal(safe)), tag='hard')
        elif name == 'wait':
            X.check('a wait without a timeout is ended by the stop', z3.BoolVal(safe), tag='hard')
        else:
            raise Unsupported('wait of an unknown kind')
        if pred:
            if safe and not (name == 'wait_for'):
                told = X.st.ghost['stop']
                r = X.call_fn_value(pred[-1], [], None)
                X.check('the condition of a wait without a timeout holds once the bus is told to stop', z3.Implies(told, X.val(r).t), tag='hard')
            else:
                X.call_fn_value(pred[-1], [], None)
        X.flag.advance()
        others(X)
        if fd.ret.k == 'bool':
            return V(BOOL, [X.fresh(Bool, 'woken')])
        return V(UNIT, []) if fd.ret.k == 'void' else X.newsym(X.shape(fd.ret), 'status')

    def dist(X, fd, this, a):
        X.flag.advance()
        return V(UNIT, [])
    X.contracts.insert(0, Contract('Bus::Distribute: terminates (own obligations)', BUS + '::Distribute', dist))
    X.hooks['variant_when'] = (', once the bus is told to stop', lambda st: st.ghost['stop'])
    X.hooks['no_variant'] = lambda X, fr, s: X.check('the loop at %s ends' % X.where.split('/')[-1], z3.BoolVal(False), tag='inv')

    def body():
        quiet[0] = True
        o, _ = new_root(X)
        X.flag = Flag(X, o)
        X.qlocks = set()
        X.st.ghost['stop'] = X.fresh(Bool, 'stop')
        quiet[0] = False
        X.hooks['access'], X.hooks['atomic_load'], X.hooks['lock'], X.hooks['wait'] = X.flag.access, X.flag.load, lock, wait
        X.hooks['unlock'] = unlock
        X.ghosting += 1
        X.hwrite(BUS, X.flag.f, o.loc, V(BOOL, [z3.BoolVal(False)]))
        X.ghosting -= 1
        r = invoke(X, fn, o, [])
        X.check('Run never throws', r.kind == 'ok')
        X.check('Run never sets the running flag', z3.Not(getf(X, o, BUS, X.flag.f).t), tag='hard')
    X.paths = verify(X, body)
    return X


def stop(prog):
    X = engine(prog)
    fn = the(prog, BUS + '::Stop', 0)
    o = sym_this(X, BUS)
    f = f_running(X)
    P = held_in_callbacks(prog)

    def lock(X, l):
        X.check('Stop takes no lock that is held while callbacks run', z3.BoolVal(l[0] == 'h' and l[1] == BUS and l[2] not in P), tag='hard')
    X.hooks['lock'] = lock
    X.hooks['wait'] = lambda X, *a: X.check('Stop never waits', z3.BoolVal(False), tag='hard')
    X.hooks['no_variant'] = lambda X, fr, s: X.check('the loop at %s ends' % X.where.split('/')[-1], z3.BoolVal(False), tag='inv')

    def body():
        r = invoke(X, fn, o, [])
        X.check('Stop never throws', r.kind == 'ok')
        X.check('Stop clears the running flag', z3.Not(getf(X, o, BUS, f).t), tag='hard')
        X.check('Stop leaves no lock behind', z3.BoolVal(len(X.st.held) == 0))
    X.paths = verify(X, body)
    return X


def held_in_callbacks(prog):
    """the locks of a bus that are held while it hands a message to a subscriber, a child or from its run loop"""
    if 'all' in CALLBACK_LOCKS:
        return CALLBACK_LOCKS['all']
    got = set()
    X = engine(prog)
    o = sym_this(X, BUS)
    bus_invariant(X, o)

    def note(X, fd, this, a):
        got.update(h[2] for h in X.st.held if h[0] == 'h' and h[1] == BUS)
        return V(UNIT, []) if fd.ret.k == 'void' else X.newsym(X.shape(fd.ret), 'r')
    X.hooks['atomic_load'] = lambda X, v: X.newsym(v.s, 'atomic')
    X.hooks['wait'] = lambda X, fd, this, a, fr, e: P14.wait(X, fd, a)
    X.contracts.insert(0, ant_contract(X))
    X.contracts.insert(0, Contract('Subscriber::Receive', SUB + '::Receive', note))
    X.contracts.insert(0, Contract('Bus::Distribute', lambda f: sig0(f) == BUS + '::Distribute' and X.inside, note))
    for nm in ('Distribute', 'Run'):
        fn = the(prog, BUS + '::' + nm)
        X.inside = nm == 'Run'

        def body():
            st = X.inside
            a = [sym_arg(X, t, 'arg') for t in fn.pt]
            if not st:
                # the children: the contract applies to everything called from here
                X.inside = False
                orig = fn

                def inner(f):
                    return sig0(f) == BUS + '::Distribute' and len(X.stack) > 0
                X.contracts[0] = Contract('Bus::Distribute', inner, note)
            invoke(X, fn, o, a)
        try:
            X.explore(body)
        except Unsupported:
            pass
    CALLBACK_LOCKS['all'] = got
    return got


def op(fn):
    def go(prog):
        X = P14.engine14(prog)
        f = f_running(X)
        o, name = X.o, P14.opname(fn)
        X.hooks['lock'] = X.hooks['access'] = None
        X.hooks['wait'] = lambda X, *a: X.check('%s never waits' % name, z3.BoolVal(False), tag='hard')
        X.hooks['no_variant'] = lambda X, fr, s: X.check('the loop at %s ends' % X.where.split('/')[-1], z3.BoolVal(False), tag='inv')

        def body():
            X.op = name
            free = fn.sig.startswith('lpv::')
            a = [sym_arg(X, t, 'arg') for t in fn.pt[1 if free else 0:]]
            for x in a:
                v = X.val(x)
                if isinstance(v, V) and v.s.k == 'ptr':
                    X.assume(v.t > 0)
            r0 = getf(X, o, BUS, f).t
            invoke(X, fn, None, [o] + a) if free else invoke(X, fn, o, a)
            X.check('%s does not set the running flag' % name, z3.Implies(getf(X, o, BUS, f).t, r0), tag='hard')
        X.paths = verify(X, body)
        return X
    return Task('%s/%d' % (P14.opname(fn), len(fn.pt)), go)


def tasks(prog):
    ops = [f for f in P14.operations(prog) if P14.opname(f) not in ('Run', 'Start', 'Stop')]
    return [Task('Bus::Run', run), Task('Bus::Stop', stop)] + [op(f) for f in ops]
