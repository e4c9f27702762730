"""Loops are cut by inductive invariants.  The invariant is the conjunction of the
candidates (generic ones below, property-specific ones in X.invs) that survive a
Houdini fixpoint; the surviving candidates are then emitted as obligations
('invariant holds on entry' / 'invariant preserved'), so the search itself is not trusted."""
import z3
from smt import *
import engine as E


def find_loc_writes(base, cur):
    """locations written between two versions of a heap array, or None if unrelated"""
    locs = []
    a = cur
    while not a.eq(base):
        if not z3.is_store(a):
            return None
        locs.append(a.arg(1))
        a = a.arg(0)
    return locs


def gkey(v):
    if isinstance(v, V):
        return ('V',) + ids(v)
    if z3.is_expr(v):
        return ('z', v.get_id())
    if isinstance(v, (list, tuple)):
        return tuple(gkey(x) for x in v)
    if isinstance(v, E.IterV):
        return ('it', v.lv.key(), v.i.get_id(), v.ver, v.rev)
    if isinstance(v, E.CStr):
        return ('cs', v.t.get_id(), None if v.null is None else v.null.get_id())
    if isinstance(v, E.AddrV):
        return ('ad', v.lv.key())
    if isinstance(v, E.LockV):
        return ('lk', repr(v.m), v.owns)
    if isinstance(v, E.LV):
        return ('lv', v.key())
    if isinstance(v, E.Special):
        return ('sp', v.kind, gkey(v.d) if not isinstance(v.d, dict) else id(v.d))
    if isinstance(v, E.FnRef):
        return ('fr', v.fn.key)
    if isinstance(v, E.IList):
        return ('il',) + tuple(gkey(x) for x in v.vs)
    return v


class Mods:
    def __init__(self):
        self.cells = set()
        self.heap = {}       # key -> list of invariant locs, or 'all'
        self.fresh = set()   # keys also written at freshly allocated objects
        self.ghost = set()
        self.nxt = False
        self.cver = set()

    def sig(self):
        return (frozenset(self.cells), frozenset((k, v if v == 'all' else tuple(x.get_id() for x in v)) for k, v in self.heap.items()), frozenset(self.fresh), frozenset(self.ghost), self.nxt, frozenset(self.cver))


class Ctx:
    """what property-specific invariant generators get to see"""
    def __init__(self, X, fr, s, entry, head, mods):
        self.X, self.fr, self.s, self.entry, self.head, self.mods = X, fr, s, entry, head, mods

    def iters(self):
        """(cid, entry IterV) of the iterator cells the loop moves"""
        return [(c, self.entry.cells[c]) for c in sorted(self.mods.cells, key=str) if isinstance(self.entry.cells.get(c), E.IterV)]

    def ints(self):
        r = []
        for c in sorted(self.mods.cells, key=str):
            v = self.entry.cells.get(c)
            if isinstance(v, V) and v.s.k == 'int':
                r.append((c, v))
        return r


def run_iter(X, fr, cond, body, inc, enter=True):
    """one iteration from the current state; returns normally at the back edge"""
    c = cond()
    if not X.branch(c):
        raise E.Infeasible()
    try:
        X.ex(fr, body)
    except E.Cont:
        pass
    if inc is not None:
        X.ev(fr, inc)


def one_pass(X, fr, cond, body, inc, st):
    """states at the back edge after one iteration from st"""
    res = X.explore(lambda: run_iter(X, fr, cond, body, inc), st)
    return [s for s, (k, _) in res if k == 'ok']


def havoc(X, entry, mods):
    """state at the loop head: everything the loop modifies is arbitrary"""
    st = entry.copy()
    saved = X.st
    X.st = st
    try:
        st.loopd += 1
        ctr0 = st.ctr
        if mods.nxt:
            n = X.fresh(Int, 'nxt')
            st.nxt = n
            X.assume(n >= entry.nxt)
        for k in sorted(mods.cver, key=str):
            st.cver[k] = 1000000 + ctr0
        for key in sorted(mods.heap):
            locs = mods.heap[key]
            arrs = X.heap_at_raw(entry, key)
            new = []
            for n, a in enumerate(arrs):
                if locs == 'all' or key in mods.fresh:
                    b = X.fresh(a.sort(), 'h')
                    X.bounds[b.decl().name()] = st.nxt
                else:
                    b = a
                    for l in locs:
                        t = X.fresh(a.sort().range(), 'hv')
                        X.bounds[t.decl().name()] = st.nxt
                        b = z3.Store(b, l, t)
                new.append(b)
            st.heap[key] = tuple(new)
        for c in sorted(mods.cells, key=str):
            v = entry.cells[c]
            if isinstance(v, V):
                st.cells[c] = X.newsym(v.s, 'lc')
            elif isinstance(v, E.IterV):
                st.cells[c] = E.IterV(v.lv, X.fresh(Int, 'it'), v.ver, v.rev)
            elif isinstance(v, E.CStr):
                st.cells[c] = E.CStr(X.fresh(v.t.sort(), 'cs'), None if v.null is None else X.fresh(Bool, 'nl'))
            elif v is None:
                pass
            else:
                raise Unsupported('loop modifies a %s' % type(v).__name__)
        for c, v in st.cells.items():
            if isinstance(v, E.IterV) and v.lv.key() in mods.cver and v.ver == entry.cver.get(v.lv.key(), 0):
                if c in mods.cells:
                    st.cells[c] = E.IterV(v.lv, v.i, st.cver[v.lv.key()], v.rev)
        for g in sorted(mods.ghost, key=str):
            v = entry.ghost.get(g)
            if isinstance(v, V):
                st.ghost[g] = X.newsym(v.s, 'gh')
            elif z3.is_expr(v):
                st.ghost[g] = X.fresh(v.sort(), 'gh')
            else:
                raise Unsupported('loop modifies ghost state ' + str(g))
    finally:
        X.st = saved
    return st


def collect(X, entry, head, end, mods):
    ch = False
    for c, v in entry.cells.items():
        if c in mods.cells:
            continue
        w = end.cells.get(c)
        if v is not w and gkey(v) != gkey(w):
            mods.cells.add(c)
            ch = True
    for key, arrs in end.heap.items():
        h = X.heap_at_raw(head, key, arrs)
        if all(a.eq(b) for a, b in zip(h, arrs)):
            continue
        cur = mods.heap.get(key, [])
        if cur == 'all':
            continue
        for a, b in zip(h, arrs):
            if a.eq(b):
                continue
            locs = find_loc_writes(a, b)
            if locs is None:
                cur = 'all'
                break
            for l in locs:
                if X_fresh(X, l, entry):
                    if key not in mods.fresh:
                        mods.fresh.add(key)
                        ch = True
                elif E.max_ctr(l) <= entry.ctr:
                    if not any(l.eq(x) for x in cur):
                        cur = cur + [l]
                else:
                    cur = 'all'
                    break
            if cur == 'all':
                break
        old = mods.heap.get(key)
        if old is None or old != cur and (cur == 'all' or len(cur) != len(old)):
            mods.heap[key] = cur
            ch = True
    for g in set(end.ghost) | set(head.ghost):
        if g in mods.ghost:
            continue
        if g not in entry.ghost:
            continue
        if gkey(head.ghost.get(g)) != gkey(end.ghost.get(g)):
            mods.ghost.add(g)
            ch = True
    if not mods.nxt and not end.nxt.eq(head.nxt):
        mods.nxt = True
        ch = True
    for k, v in end.cver.items():
        if k not in mods.cver and head.cver.get(k, 0) != v:
            mods.cver.add(k)
            ch = True
    if len(end.held) != len(head.held) or any(gkey_lock(a) != gkey_lock(b) for a, b in zip(end.held, head.held)):
        raise Unsupported('loop changes the set of held locks')
    return ch


def gkey_lock(l):
    return l[:3] + (l[3].get_id(),) if l[0] == 'h' else l


def X_fresh(X, l, entry):
    """location allocated after the loop was entered: nxt-based"""
    b, o = E.lin(l)
    if b is None:
        return False
    eb, eo = E.lin(entry.nxt)
    if eb is not None and b.eq(eb):
        return o >= eo
    return z3.is_const(b) and b.decl().name().startswith('nxt!') and E.max_ctr(b) > entry.ctr


def analyse(X, fr, cond, body, inc, entry, pre=None):
    mods = Mods()
    saved, X.st = X.st, entry
    try:
        for rnd in range(12):
            head = havoc(X, entry, mods)
            if rnd > 0 and pre:
                pass
            ends = one_pass(X, fr, cond, body, inc, head)
            ch = False
            for e in ends:
                ch = collect(X, entry, head, e, mods) or ch
            if not ch:
                return mods, head
        raise Unsupported('loop effects do not stabilise')
    finally:
        X.st = saved


class Cand:
    __slots__ = ('name', 'f')

    def __init__(self, name, f):
        self.name, self.f = name, f


def quantities(X, entry, mods):
    """integer quantities of the loop: name -> function of a state"""
    qs = []
    def addv(nm, v, get):
        if not isinstance(v, V):
            return
        if v.s.k == 'int':
            qs.append((nm, lambda st: get(st).t))
        elif v.s.k == 'seq':
            qs.append((nm + '.size', lambda st: get(st).t))
        elif v.s.k == 'str':
            qs.append((nm + '.length', lambda st: X.S.len(get(st).t)))
        elif v.s.k == 'map':
            qs.append((nm + '.size', lambda st: X.card(get(st).c[0])))
        elif v.s.k == 'mptr':
            qs.append((nm + '.off', lambda st: get(st).c[1]))
    for c in sorted(mods.cells, key=str):
        v = entry.cells.get(c)
        if isinstance(v, V):
            addv('cell%s' % (c,), v, lambda st, c=c: st.cells[c])
        elif isinstance(v, E.IterV):
            qs.append(('iter%s' % (c,), lambda st, c=c: st.cells[c].i))
    for key in sorted(mods.heap):
        locs = mods.heap[key]
        sh = X.heap_shape(key)
        if locs == 'all' or key in mods.fresh or sh is None:
            continue
        for l in locs:
            addv('%s.%s' % key, V(sh, [z3.IntVal(0)] * sh.n) if sh.k in ('int', 'seq', 'str', 'map', 'mptr') else None,
                 lambda st, key=key, l=l, sh=sh: V(sh, [X.sel(a, l) for a in X.heap_at_raw(st, key)]))
    for g in sorted(mods.ghost, key=str):
        v = entry.ghost[g]
        if isinstance(v, V):
            addv('ghost ' + str(g), v, lambda st, g=g: st.ghost[g])
        elif z3.is_expr(v) and z3.is_int(v):
            qs.append(('ghost ' + str(g), lambda st, g=g: st.ghost[g]))
    return qs


def with_state(X, st, f):
    saved, X.st = X.st, st
    X.ghosting += 1
    try:
        return f()
    finally:
        X.ghosting -= 1
        X.st = saved


def submap(a, b):
    """every entry of a is an entry of b"""
    k = z3.Const('k!sub', a.c[0].sort().domain())
    return z3.ForAll([k], z3.Implies(z3.Select(a.c[0], k), z3.And([z3.Select(b.c[0], k)] + [z3.Select(x, k) == z3.Select(y, k) for x, y in zip(a.c[1:], b.c[1:])])), patterns=[z3.Select(a.c[0], k)])


def generic(X, fr, s, cond, entry, head, mods):
    cs = []
    qs = quantities(X, entry, mods)
    evs = [(n, g, with_state(X, entry, lambda: g(entry))) for n, g in qs]
    for n, g, e0 in evs:
        cs.append(Cand('%s >= initial' % n, lambda st, g=g, e0=e0: g(st) >= e0))
        cs.append(Cand('%s <= initial' % n, lambda st, g=g, e0=e0: g(st) <= e0))
    for i in range(len(evs)):
        for j in range(i):
            n, g, e0 = evs[i]
            m, h, f0 = evs[j]
            cs.append(Cand('%s-%s const' % (n, m), lambda st, g=g, h=h, e0=e0, f0=f0: g(st) - h(st) == e0 - f0))
            cs.append(Cand('%s+%s const' % (n, m), lambda st, g=g, h=h, e0=e0, f0=f0: g(st) + h(st) == e0 + f0))
    for c in sorted(mods.cells, key=str):
        v = entry.cells.get(c)
        if isinstance(v, E.IterV):
            def rng(st, c=c):
                it = st.cells[c]
                try:
                    n = X.lib.length(X.read(it.lv))
                except Unsupported:
                    return z3.BoolVal(True)
                return z3.And(it.i >= 0, it.i <= n)
            cs.append(Cand('iterator %s within range' % (c,), rng))
        elif isinstance(v, V) and v.s.k == 'seq' and v.s.a.n:
            cs.append(Cand('prefix of %s kept' % (c,), lambda st, c=c, v=v: prefix(st.cells[c], v)))
        elif isinstance(v, V) and v.s.k == 'bool':
            cs.append(Cand('flag %s true' % (c,), lambda st, c=c: st.cells[c].t))
            cs.append(Cand('flag %s false' % (c,), lambda st, c=c: z3.Not(st.cells[c].t)))
        elif isinstance(v, V) and v.s.k == 'ptr':
            cs.append(Cand('pointer %s not null' % (c,), lambda st, c=c: st.cells[c].t != 0))
            cs.append(Cand('pointer %s unchanged' % (c,), lambda st, c=c, v=v: st.cells[c].t == v.t))
        if isinstance(v, V) and v.s.k in ('int', 'str'):
            cs.append(Cand('%s unchanged' % (c,), lambda st, c=c, v=v: st.cells[c].t == v.t))
    for key in sorted(mods.heap):
        sh = X.heap_shape(key)
        if mods.heap[key] == 'all' or key in mods.fresh:
            ex = mods.heap[key] if mods.heap[key] != 'all' else []
            def fr_(st, key=key, ex=ex):
                l = z3.Const('l!fr', Int)
                new, old = X.heap_at_raw(st, key), X.heap_at_raw(entry, key)
                return z3.And([z3.ForAll([l], z3.Implies(z3.And([l < entry.nxt] + [l != x for x in ex]), z3.Select(a, l) == z3.Select(b, l)), patterns=[z3.Select(a, l)]) for a, b in zip(new, old)])
            cs.append(Cand('frame %s.%s' % key, fr_))
        elif sh is not None and sh.k == 'seq' and sh.a.n:
            for l in mods.heap[key]:
                cs.append(Cand('prefix of %s.%s kept' % key, lambda st, key=key, l=l, sh=sh: prefix(
                    V(sh, [X.sel(a, l) for a in X.heap_at_raw(st, key)]), V(sh, [X.sel(a, l) for a in X.heap_at_raw(entry, key)]))))
        if sh is not None and sh.k == 'map' and mods.heap[key] != 'all':
            for l in mods.heap[key]:
                for up in (False, True):
                    cs.append(Cand('%s.%s only %s' % (key + ('grows' if up else 'shrinks',)), lambda st, key=key, l=l, sh=sh, up=up: submap(
                        *[V(sh, [X.sel(a, l) for a in X.heap_at_raw(x, key)]) for x in ((entry, st) if up else (st, entry))])))
    # relation suggested by the loop condition
    def condterm(st):
        saved, X.st = X.st, st.copy()
        try:
            r = X.explore(cond, X.st)
        finally:
            X.st = saved
        return [o[1] for _, o in r if o[0] == 'ok']
    try:
        t0 = condterm(head)
    except Unsupported:
        t0 = []
    try:
        e0 = condterm(entry)
    except Unsupported:
        e0 = []
    e0 = e0[0] if len(e0) == 1 else None
    if e0 is not None and not z3.is_true(e0):
        def same(st):
            return z3.Or(e0, z3.And([a == b for c in sorted(mods.cells, key=str) for a, b in zip(*[comps(x.cells.get(c)) for x in (st, entry)])]))
        cs.append(Cand('unchanged unless the loop is entered', same))
    for n in range(min(len(t0), 3)):
        for which in range(8):
            def f(st, n=n, which=which):
                ts = condterm(st)
                if n >= len(ts):
                    return z3.BoolVal(True)
                c = ts[n]
                neg = False
                while z3.is_not(c):
                    c, neg = c.arg(0), not neg
                if z3.is_eq(c) and z3.is_int(c.arg(0)) or z3.is_le(c) or z3.is_lt(c) or z3.is_ge(c) or z3.is_gt(c):
                    a, b = c.arg(0), c.arg(1)
                    if which == 0:
                        return a <= b
                    if which == 1:
                        return a >= b
                    if which == 2:
                        return a <= b + 1
                    if which == 3:
                        return a >= b - 1
                    if which == 4 and e0 is not None:
                        return z3.Implies(e0, a <= b)
                    if which == 5 and e0 is not None:
                        return z3.Implies(e0, a >= b)
                return z3.BoolVal(True)
            if which < 6:
                cs.append(Cand('loop bound %d.%d' % (n, which), f))
    return cs


def comps(v):
    if isinstance(v, V):
        return v.c
    if isinstance(v, E.IterV):
        return (v.i,)
    return ()


def prefix(new, old):
    i = z3.Const('i!px', Int)
    return z3.And(new.t >= old.t, z3.And([z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < old.t), z3.Select(a, i) == z3.Select(b, i)), patterns=[z3.Select(a, i)]) for a, b in zip(new.c[1:], old.c[1:])]))


def goals_of(X, st, c):
    """the candidate in a state (evaluation may add type facts to a scratch copy)"""
    def go():
        t = c.f(X.st)
        return t if not isinstance(t, bool) else z3.BoolVal(t)
    saved, X.st = X.st, st
    X.ghosting += 1
    try:
        return go()
    finally:
        X.ghosting -= 1
        X.st = saved


def houdini(X, fr, s, cond, body, inc, entry, mods, cands):
    live = []
    for c in cands:
        st = entry.copy()
        try:
            g = goals_of(X, st, c)
        except Unsupported:
            continue
        if X.entails(g, 2000, st.pc):
            live.append(c)
    for rnd in range(20):
        head = havoc(X, entry, mods)
        saved, X.st = X.st, head
        try:
            for c in live:
                X.assume(goals_of(X, head, c))
        except E.Infeasible:
            return live, None, []
        finally:
            X.st = saved
        ends = one_pass(X, fr, cond, body, inc, head)
        drop = set()
        for e in ends:
            for i, c in enumerate(live):
                if i in drop:
                    continue
                st = e.copy()
                try:
                    g = goals_of(X, st, c)
                except Unsupported:
                    drop.add(i)
                    continue
                if not X.entails(g, 2500, st.pc):
                    drop.add(i)
        if not drop:
            return live, head, ends
        if X.hooks.get('trace_inv'):
            print('dropped', [live[i].name for i in drop])
        live = [c for i, c in enumerate(live) if i not in drop]
    return live, None, []


def condterms(X, cond, st):
    saved, X.st = X.st, st.copy()
    try:
        return [o[1] for _, o in X.explore(cond, X.st) if o[0] == 'ok']
    except Unsupported:
        return []
    finally:
        X.st = saved


def measures(X, cond, entry, head, mods):
    """integer quantities that may decrease with every iteration"""
    ms = []
    for c in sorted(mods.cells, key=str):
        v = entry.cells.get(c)
        if isinstance(v, E.IterV):
            ms.append(('elements left after iterator %s' % (c,), lambda st, c=c: X.lib.length(X.read(st.cells[c].lv)) - st.cells[c].i))
            ms.append(('elements before iterator %s' % (c,), lambda st, c=c: st.cells[c].i))
    for n in range(min(len(condterms(X, cond, head)), 3)):
        for up in (True, False):
            def f(st, n=n, up=up):
                ts = condterms(X, cond, st)
                if n >= len(ts):
                    raise Unsupported('condition')
                c = ts[n]
                while z3.is_not(c):
                    c = c.arg(0)
                if z3.is_eq(c) and z3.is_int(c.arg(0)) or z3.is_le(c) or z3.is_lt(c) or z3.is_ge(c) or z3.is_gt(c):
                    return 1 + (c.arg(1) - c.arg(0) if up else c.arg(0) - c.arg(1))
                raise Unsupported('condition')
            ms.append(('distance in the loop condition %d' % n, f))
    for n, g in quantities(X, entry, mods):
        ms.append((n, g))
    for c in sorted(mods.cells, key=str):
        v = entry.cells.get(c)
        if isinstance(v, V) and v.s.k == 'bool':
            ms.append(('flag %s is cleared' % (c,), lambda st, c=c: z3.If(st.cells[c].t, z3.IntVal(1), z3.IntVal(0))))
            ms.append(('flag %s is set' % (c,), lambda st, c=c: z3.If(st.cells[c].t, z3.IntVal(0), z3.IntVal(1))))
    return [x for g in X.measures for x in g(Ctx(X, None, None, entry, head, mods))] + ms


def decreases(X, m, head, end):
    a, b = with_state(X, head, lambda: m(head)), with_state(X, end, lambda: m(end))
    g = z3.And(a >= 0, b < a)
    w = getattr(m, 'when', None)
    return z3.Implies(w(head), g) if w else g


def find_variant(X, cond, entry, head, ends, mods):
    """a measure that is bounded below and decreases on every way through the loop; 'variant_when' = (text, f):
    if there is none, one that does so for iterations that begin in a state where f holds"""
    if head is None:
        return None
    ms = measures(X, cond, entry, head, mods)
    when = X.hooks.get('variant_when')
    for w in (None, when) if when else (None,):
        for nm, m in ms + ([('no further iteration', lambda st: z3.IntVal(0))] if w else []):
            if w:
                nm, m = nm + w[0], lambda st, m=m: m(st)
                m.when = w[1]
            try:
                if all(X.entails(decreases(X, m, head, e.copy()), 1500, e.pc) for e in ends):
                    return nm, m
            except (Unsupported, KeyError, AttributeError, E.Infeasible):
                pass
    return None


def run(X, fr, s, cond, body, inc):
    always = s['k'] in ('while', 'for', 'do') and (s.get('c') is None or s['c']['k'] == 'bool' and s['c']['v'])
    if not always:
        n = 0
        pc0 = list(X.st.pc)
        while n < X.UNROLL:
            # is the outcome of the condition determined here, by what was known before the loop?
            X.quiet += 1
            try:
                outs = X.explore(cond, X.st)
            finally:
                X.quiet -= 1
            t = f = False
            for st, (k, c) in outs:
                if k != 'ok':
                    t = f = True
                    continue
                c = z3.simplify(c)
                saved, X.st = X.st, st
                if n:
                    X.st = st.copy()
                    X.st.pc = list(pc0)
                try:
                    if not z3.is_false(c) and X.feasible(c):
                        t = True
                    if not z3.is_true(c) and X.feasible(z3.Not(c)):
                        f = True
                finally:
                    X.st = saved
            if t and f:
                break
            if not t and not f:
                raise E.Infeasible()
            c = cond()
            if not X.branch(c):
                return
            try:
                X.ex(fr, body)
            except E.Brk:
                return
            except E.Cont:
                pass
            if inc is not None:
                X.ev(fr, inc)
            n += 1
    entry = X.st.copy()
    key = (id(s), tuple(X.stack), entry.ctr, tuple(c.get_id() for c in entry.pc), frozenset(entry.cells))
    r = X.loopcache.get(key)
    if r is None:
        X.quiet += 1
        try:
            mods, head = analyse(X, fr, cond, body, inc, entry)
            for st in [head]:
                pass
            ctx = Ctx(X, fr, s, entry, head, mods)
            cands = generic(X, fr, s, cond, entry, head, mods)
            for g in X.invs:
                for nm, f in g(ctx):
                    cands.append(Cand(nm, f))
            live, hd, ends = houdini(X, fr, s, cond, body, inc, entry, mods, cands)
            var = find_variant(X, cond, entry, hd, ends, mods)
        finally:
            X.quiet -= 1
        r = (mods, live, entry, var, fr)
        X.loopcache[key] = r
        if not X.quiet:
            nm = '%s:%s' % (fr.fn.js.get('bfile', '?') if fr.fn else '?', s.get('l'))
            X.loops[nm] = [c.name for c in live]
            X.variants.setdefault(nm, []).append(var[0] if var else None)
    mods, live, _, var, afr = r
    if afr is not fr:
        afr.vars = dict(fr.vars)     # the conditions captured by the candidates refer to the frame of the analysis
    for c in live:
        X.check('loop invariant holds on entry: ' + c.name, goals_of(X, X.st, c), tag='inv')
    head = havoc(X, X.st, mods)
    X.st = head
    for c in live:
        X.assume(goals_of(X, X.st, c))
    hook = X.hooks.get('loop_head')
    if hook:
        hook(X, fr, s)
    i = X.choose([None, None])
    if i == 0:
        c = cond() if not always else z3.BoolVal(True)
        if X.branch(c):
            raise E.Infeasible()
        return
    h2 = X.st.copy()
    try:
        run_iter(X, fr, cond, body, inc)
    except E.Brk:
        return
    m2 = Mods()
    m2.__dict__.update({k: (set(v) if isinstance(v, set) else dict(v) if isinstance(v, dict) else v) for k, v in mods.__dict__.items()})
    if collect(X, entry, h2, X.st, m2):
        raise Unsupported('loop effects differ from the analysis')
    for c, v in X.st.cells.items():
        if isinstance(v, E.IterV) and c in mods.cells and h2.cells[c].ver == h2.cver.get(v.lv.key(), 0) and v.ver != X.st.cver.get(v.lv.key(), 0):
            raise Unsupported('loop leaves a stale iterator')
        if c in mods.cells and isinstance(v, V) and v.s.k == 'fn':
            raise Unsupported('loop changes a function value')
    if var is not None:
        X.check('loop variant decreases: ' + var[0], decreases(X, var[1], h2, X.st), tag='inv')
    elif X.hooks.get('no_variant'):
        X.hooks['no_variant'](X, fr, s)
    for c in live:
        X.check('loop invariant preserved: ' + c.name, goals_of(X, X.st, c), tag='inv')
    raise E.Infeasible()
