"""Contracts assumed for the C++ standard library (the trusted base of every proof).
Each method gives the effect of one library function on the symbolic state."""
import re
import z3
from smt import *
from prog import strip_const
import engine as E
import chrono

SEQS = ('std::list', 'std::deque', 'std::vector', 'std::initializer_list', 'std::array')
MAPS = ('std::map', 'std::unordered_map', 'std::set', 'std::unordered_set')
ITERS = ('_List_iterator', '_List_const_iterator', '_Rb_tree_iterator', '_Rb_tree_const_iterator', '_Deque_iterator', '__normal_iterator',
         '_Node_iterator', '_Node_const_iterator', 'reverse_iterator')
NPOS = (1 << 64) - 1
IDENT = {'std::forward', 'std::move', 'std::addressof', 'std::ref', 'std::cref', 'std::as_const'}
CHAR = Sh('int', [Int], w=8, sg=True)


class Lib:
    def __init__(self, X):
        self.X = X
        self.ext = {}          # q -> python model, registered per property

    # -------------------------------------------------------- helpers
    def v(self, x):
        return self.X.val(x)

    def sv(self, x):
        """string term of a std::string / const char* / char argument"""
        X = self.X
        v = self.v(x)
        if isinstance(v, E.CStr):
            if v.null is not None:
                X.assume(z3.Not(v.null))
            return v.t
        if isinstance(v, V) and v.s.k in ('str', 'stream'):
            return v.t
        if isinstance(v, V) and v.s.k == 'int' and v.s.w == 8:
            return X.S.fromchar(v.t)
        if isinstance(v, V) and v.s.k == 'mptr':
            return self.mem_cstr(v)
        if isinstance(v, E.AddrV) and v.lv.s is not None and v.lv.s.k == 'str':
            return self.X.read(v.lv).t
        raise Unsupported('not a string: %r' % (v,))

    def str(self, t):
        v = V(self.X.STR, [t])
        if self.X.S.name == 'opaque':
            self.X.typed(v)
        return v

    def bool(self, t):
        return V(BOOL, [z3.simplify(t)])

    def size(self, t):
        return V(SIZE, [t])

    def mem_cstr(self, v):
        h = self.X.hooks.get('mem_cstr')
        if h:
            return h(self.X, v)
        raise Unsupported('raw memory as text')

    # -------------------------------------------------------- equality of values
    def equal(self, a, b):
        X = self.X
        if isinstance(a, E.IterV) and isinstance(b, E.IterV):
            return a.i == b.i
        if isinstance(a, (E.CStr, E.AddrV, E.FnRef)) or isinstance(b, (E.CStr, E.AddrV, E.FnRef)):
            for x, y in ((a, b), (b, a)):
                if isinstance(y, V) and y.s.k in ('ptr', 'mptr', 'fn', 'int') and z3.is_int_value(z3.simplify(y.t)) and z3.simplify(y.t).as_long() == 0:
                    if isinstance(x, E.CStr):
                        return x.null if x.null is not None else z3.BoolVal(False)
                    return z3.BoolVal(False)
            if isinstance(a, E.AddrV) and isinstance(b, E.AddrV):
                if a.lv.key() == b.lv.key():
                    return z3.BoolVal(True)
                if isinstance(a.lv, E.CellLV) and isinstance(b.lv, E.CellLV):
                    return z3.BoolVal(False)
            if isinstance(a, E.AddrV) and isinstance(b, V) or isinstance(b, E.AddrV) and isinstance(a, V):
                return z3.BoolVal(False)     # address of a local is never a heap address
            raise Unsupported('pointer comparison')
        if not (isinstance(a, V) and isinstance(b, V)):
            raise Unsupported('comparison of %r and %r' % (a, b))
        ka, kb = a.s.k, b.s.k
        if ka == 'dbl' or kb == 'dbl':
            return X.dpred('==', X.convert(a, DBL).t, X.convert(b, DBL).t)
        if {ka, kb} == {'int', 'bool'}:
            x = a.t if ka == 'int' else z3.If(a.t, 1, 0)
            y = b.t if kb == 'int' else z3.If(b.t, 1, 0)
            return x == y
        if {ka, kb} == {'mptr', 'ptr'}:
            return a.t == b.t
        if ka in ('int', 'bool', 'ptr', 'fn', 'str', 'abs') and (kb == ka or {ka, kb} <= {'ptr', 'fn', 'int'}):
            return a.t == b.t
        if ka == kb == 'mptr':
            return z3.And(a.c[0] == b.c[0], a.c[1] == b.c[1])
        if ka == kb == 'pair':
            n = a.s.a.n
            return z3.And(self.equal(V(a.s.a, a.c[:n]), V(b.s.a, b.c[:n])), self.equal(V(a.s.b, a.c[n:]), V(b.s.b, b.c[n:])))
        if ka == kb == 'seq':
            i = z3.Const('i!eq', Int)
            body = self.equal(V(a.s.a, [z3.Select(x, i) for x in a.c[1:]]), V(b.s.a, [z3.Select(x, i) for x in b.c[1:]]))
            return z3.And(a.t == b.t, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a.t), body)))
        if ka == kb == 'map':
            k = z3.Const('k!eq', a.s.a.sorts[0])
            body = self.equal(V(a.s.b, [z3.Select(x, k) for x in a.c[1:]]), V(b.s.b, [z3.Select(x, k) for x in b.c[1:]])) if a.s.b.n else z3.BoolVal(True)
            return z3.And(a.c[0] == b.c[0], z3.ForAll([k], z3.Implies(z3.Select(a.c[0], k), body)))
        raise Unsupported('equality of %s and %s' % (a.s, b.s))

    # -------------------------------------------------------- iterators
    def ver(self, lv):
        return self.X.st.cver.get(lv.key(), 0)

    def bump(self, lv):
        k = lv.key()
        self.X.st.cver[k] = self.X.st.cver.get(k, 0) + 1

    def length(self, v):
        if v.s.k == 'seq':
            return v.t
        if v.s.k == 'map':
            return self.X.card(v.c[0])
        raise Unsupported('length of %s' % v.s)

    def iter_deref(self, it):
        X = self.X
        if it.ver != self.ver(it.lv):
            raise Unsupported('iterator used after its container changed')
        b = X.read(it.lv)
        i = it.i
        if it.rev:
            i = z3.simplify(self.length(b) - 1 - i)
        X.bounds_check(i, self.length(b))
        if b.s.k == 'seq':
            return E.ElemLV(it.lv, i, b.s.a)
        X.map_axioms(b.c[0])
        k = X.keyat(b.c[0], i)
        X.assume(z3.And(z3.Select(b.c[0], k), X.idxof(b.c[0], k) == i))
        X.typed(V(b.s.a, [k]))
        if b.s.b.n == 0:
            return X.cell(V(b.s.a, [k]))
        return E.EntryLV(it.lv, k, pair_shape(b.s.a, b.s.b))

    def iter_arith(self, op, a, b):
        if isinstance(a, E.IterV) and isinstance(b, E.IterV):
            if op == '-':
                return V(LONG, [a.i - b.i])
            return self.bool({'<': a.i < b.i, '>': a.i > b.i, '<=': a.i <= b.i, '>=': a.i >= b.i}[op])
        if isinstance(b, E.IterV):
            a, b = b, a
        d = b.t if op == '+' else -b.t
        return E.IterV(a.lv, z3.simplify(a.i + d), a.ver, a.rev)

    # -------------------------------------------------------- construction
    def uninit(self, ty, s):
        """value of a variable declared without initialiser"""
        X = self.X
        if ty.k == 'rec' and s.k in ('unit',):
            return V(s, [])
        return X.undef(s) if s.n else V(s, [])

    def global_init(self, g, ty):
        X = self.X
        s = X.shape(ty)
        h = X.hooks.get('global')
        if h:
            r = h(X, g, ty)
            if r is not None:
                return r
        if s.k == 'stream':
            return V(s, [z3.Const('out0:' + g, X.S.sort), z3.IntVal(0)])
        return V(s, [z3.Const('G:%s:%d' % (g, i), x) for i, x in enumerate(s.sorts)])

    def construct(self, fn, ty, a):
        X = self.X
        s = X.shape(ty)
        n = ty.n if ty.k == 'rec' else ''
        X.used_lib.add(fn.q)
        vs = [self.v(x) for x in a]
        if s.k == 'str':
            if not vs:
                return self.str(X.S.lit([]))
            v = vs[0]
            if isinstance(v, E.IterV):
                return self.str_range(v, vs[1])
            if isinstance(v, E.IList):
                t = X.S.lit([])
                for c in v.vs:
                    t = X.S.concat(t, X.S.fromchar(c.t))
                return self.str(t)
            if isinstance(v, V) and v.s.k == 'int' and len(vs) >= 2:
                if z3.is_int_value(z3.simplify(v.t)):
                    t = X.S.lit([])
                    for _ in range(min(z3.simplify(v.t).as_long(), 4096)):
                        t = X.S.concat(t, X.S.fromchar(vs[1].t))
                    return self.str(t)
                f = z3.Function('str.repeat', Int, Int, X.S.sort)
                r = f(v.t, vs[1].t)
                X.assume(X.S.len(r) == v.t)
                self.rep_facts(r, v.t, vs[1].t)
                return self.str(r)
            t = self.sv(v)
            if len(vs) >= 2 and isinstance(vs[1], V) and vs[1].s.k == 'int':
                if isinstance(v, E.CStr):
                    if z3.is_int_value(z3.simplify(vs[1].t)) or True:
                        return self.str(X.S.substr(t, z3.IntVal(0), vs[1].t))
                if isinstance(v, V) and v.s.k == 'str':
                    ln = vs[2].t if len(vs) > 2 and isinstance(vs[2], V) and vs[2].s.k == 'int' else z3.IntVal(NPOS)
                    return self.substr(t, vs[1].t, ln)
            if isinstance(v, E.CStr):
                t = X.S.cstr(t)
            if fn.js.get('movector') and isinstance(a[0], E.LV):
                self.moved(a[0])
            return self.str(t)
        if s.k in ('ptr', 'fn'):
            if not vs:
                return X.zero(s)
            v = vs[0]
            if s.k == 'fn':
                v = X.tov(v, s)
                if fn.js.get('movector') and isinstance(a[0], E.LV) and X.read(a[0]).s.k == 'fn':
                    X.write(a[0], X.zero(FN))        # libstdc++ leaves a moved-from function empty
                return V(FN, v.c)
            if isinstance(v, E.AddrV):
                raise Unsupported('shared_ptr to a local')
            if fn.js.get('movector') and isinstance(a[0], E.LV):
                X.write(a[0], X.zero(X.read(a[0]).s))
            if len(vs) >= 2 and s.ty is not None and ty.n == 'std::shared_ptr':
                h = X.hooks.get('deleter')
                if h:
                    h(X, v, vs[1:])
            return V(s, [v.t])
        if s.k == 'seq':
            if not vs or (isinstance(vs[0], V) and vs[0].s.k == 'unit'):
                return X.seq_empty(s)
            v = vs[0]
            if isinstance(v, V) and v.s.k == 'seq':
                self.copyable(s)
                if fn.js.get('movector') and isinstance(a[0], E.LV):
                    X.write(a[0], X.seq_empty(s))
                return V(s, v.c)
            if isinstance(v, E.IterV) and isinstance(vs[1], E.IterV):
                return self.seq_range(s, v, vs[1])
            if isinstance(v, V) and v.s.k == 'int':
                r = X.seq_empty(s)
                el = vs[1] if len(vs) > 1 and isinstance(vs[1], V) and vs[1].s.n == s.a.n and vs[1].s.k == s.a.k else X.zero(s.a)
                return V(s, [v.t] + [z3.K(Int, t) for t in el.c])
            if isinstance(v, E.IList):
                r = X.seq_empty(s)
                arrs = list(r.c[1:])
                for i, y in enumerate(v.vs):
                    arrs = [z3.Store(q, z3.IntVal(i), t) for q, t in zip(arrs, X.coerce(y, s.a).c)]
                return V(s, [z3.IntVal(len(v.vs))] + arrs)
        if s.k == 'map':
            if not vs or not isinstance(vs[0], V) or vs[0].s.k == 'unit':
                return X.map_empty(s)
            if vs[0].s.k == 'map':
                if fn.js.get('movector') and isinstance(a[0], E.LV):
                    X.write(a[0], X.map_empty(s))
                return V(s, vs[0].c)
        if s.k == 'pair':
            if not vs:
                return X.zero(s)
            if len(vs) == 1 and isinstance(vs[0], V) and vs[0].s.k == 'pair':
                return V(s, vs[0].c)
            if len(vs) == 2:
                c = self.mk(s.a, vs[0]).c + self.mk(s.b, vs[1]).c
                return V(s, c)
        if n in (chrono.DUR, chrono.TP):
            return chrono.construct(X, fn, ty, a, vs)
        if s.k == 'int' or s.k == 'bool' or s.k == 'dbl':       # atomic<T>
            if not vs:
                return X.undef(s) if n == 'std::atomic' else X.zero(s)
            return X.convert(vs[0], s)
        if s.k == 'stream':
            h = X.hooks.get('stream_ctor')
            if h:
                return h(X, ty, vs)
            if vs and (isinstance(vs[0], E.CStr) or (isinstance(vs[0], V) and vs[0].s.k == 'str')) and 'stringstream' in n:
                return V(s, [self.sv(vs[0]), z3.IntVal(0)])
            return V(s, [X.S.lit([]), z3.IntVal(0)])
        if n in ('std::lock_guard', 'std::scoped_lock', 'std::unique_lock'):
            if not a:
                return E.LockV(None, False)
            if isinstance(vs[0], E.LockV):
                X.write(a[0], E.LockV(vs[0].m, False))
                return vs[0]
            if len(a) > 1 and fn.pt[-1].k == 'rec':
                tag = fn.pt[-1].n
                if tag == 'std::defer_lock_t':
                    return E.LockV(X.lock_id(a[0]), False)
                if tag == 'std::adopt_lock_t':
                    return E.LockV(X.lock_id(a[0]), True)
                raise Unsupported('lock with tag ' + tag)
            if len(a) > 1:
                raise Unsupported('multi lock')
            X.lock(a[0])
            return E.LockV(X.lock_id(a[0]), True)
        if any(i in n for i in ITERS):
            if vs and isinstance(vs[0], E.IterV):
                return vs[0]
            return V(UNIT, [])
        h = self.ext.get('ctor ' + n)
        if h:
            return h(X, fn, ty, a)
        if n == 'std::uniform_int_distribution':
            if vs and vs[0].s.k == 'pair':
                return vs[0]
            w, sg = s.a.w, s.a.sg
            lo = vs[0].t if vs else z3.IntVal(0)
            hi = vs[1].t if len(vs) > 1 else z3.IntVal(2 ** (w - 1) - 1 if sg else 2 ** w - 1)
            X.check('the bounds of a uniform distribution are ordered', lo <= hi)
            return V(s, [lo, hi])
        if n.startswith('std::allocator') or s.k == 'unit':
            return V(s, [])
        raise Unsupported('construction of %s' % ty.s)

    def copyable(self, s):
        """copying a container copies its elements: only for element types whose copy is their value"""
        X = self.X
        if s.a.k == 'struct':
            rec = X.prog.recs.get(s.a.cls)
            for m in (rec.methods if rec else []):
                if m.js.get('copyctor') and not m.js.get('implicit'):
                    raise Unsupported('container of %s copied' % s.a.cls)
            for (_, f, fs) in s.a.fields:
                if fs.k == 'struct':
                    self.copyable(Sh('seq', [], a=fs))

    def mk(self, s, v):
        """value v as an element of shape s (implicit conversions done by library templates)"""
        X = self.X
        if isinstance(v, V) and v.s.k == s.k:
            return V(s, v.c) if s.k != 'struct' or v.s.cls == s.cls else v
        if s.k == 'str':
            return self.str(self.sv(v))
        if s.k == 'ptr' and isinstance(v, V) and v.s.k in ('ptr', 'int'):
            return V(s, [v.t])
        if s.k == 'fn':
            return X.tov(v, s)
        if s.k in ('int', 'bool', 'dbl') and isinstance(v, V):
            return X.convert(v, s)
        raise Unsupported('conversion of %r to %s' % (v, s))

    def moved(self, lv):
        X = self.X
        try:
            X.write(lv, X.newsym(X.STR, 'moved'))
        except Unsupported:
            pass

    def ext_ctor(self, fn, lv, a):
        return NotImplemented

    def rep_facts(self, r, n, ch):
        pass

    def str_range(self, a, b):
        X = self.X
        s = X.read(a.lv)
        if s.s.k != 'str':
            raise Unsupported('string from iterator range')
        return self.str(X.S.substr(s.t, a.i, b.i - a.i))

    def seq_range(self, s, a, b):
        X = self.X
        src = X.read(a.lv)
        if src.s.k != 'seq':
            raise Unsupported('range of map')
        if z3.is_int_value(a.i) and a.i.as_long() == 0:
            return V(s, (z3.simplify(b.i),) + src.c[1:])
        r = X.newsym(s, 'rng')
        i = z3.Const('i', Int)
        X.assume(r.t == b.i - a.i)
        for x, y in zip(r.c[1:], src.c[1:]):
            X.assume(z3.ForAll([i], z3.Select(x, i) == z3.Select(y, i + a.i), patterns=[z3.Select(x, i)]))
        return r

    # -------------------------------------------------------- calls
    def call(self, f, this, a, fr, e):
        X = self.X
        q = f.q
        h = self.ext.get(q)
        if h is None and f.cls is not None:
            h = self.ext.get(f.cls.n + '::' + f.n)
        if h is not None:
            return h(X, f, this, a, fr, e)
        if q in IDENT or q == 'std::__addressof':
            return a[0] if q not in ('std::addressof',) else E.AddrV(a[0])
        r = chrono.call(self, f, this, a, e)
        if r is not NotImplemented:
            return r
        if e is not None and e.get('k') == 'opcall':
            return self.operator(e['op'], f, this, a, fr, e)
        if f.cls is not None:
            n = f.cls.n
            m = f.n
            if m in ('seed', 'discard', 'reset') and n.startswith(('std::mersenne', 'std::linear_cong', 'std::uniform_int')):
                return V(UNIT, [])
            if n == 'std::random_device' and m == 'entropy':
                return X.newsym(DBL, 'entropy')
            if m.startswith('operator') and not f.js.get('convfn'):
                op = m[8:].strip()
                return self.operator(op, f, this, a, fr, e)
            if f.js.get('convfn'):
                v = self.v(this)
                return self.conversion(f, n, v)
            if n == 'std::basic_string':
                return self.string(m, f, this, a)
            if n in SEQS:
                return self.seq(m, f, this, a, fr, e)
            if n in MAPS:
                return self.map(m, f, this, a, fr, e)
            if n in ('std::shared_ptr', 'std::__shared_ptr', 'std::unique_ptr', 'std::__shared_ptr_access', 'std::weak_ptr'):
                return self.smartptr(m, f, this, a)
            if n == 'std::atomic' or n.startswith('std::__atomic'):
                return self.atomic(m, f, this, a)
            if n == 'std::mutex' or n == 'std::recursive_mutex':
                if m == 'lock':
                    X.lock(this)
                    return V(UNIT, [])
                if m == 'unlock':
                    X.unlock(X.lock_id(this))
                    return V(UNIT, [])
            if n in ('std::unique_lock', 'std::lock_guard'):
                v = self.v(this)
                if m == 'unlock':
                    X.unlock(v.m)
                    X.write(this, E.LockV(v.m, False))
                    return V(UNIT, [])
                if m == 'lock':
                    lv = v.m
                    X.st.held = X.st.held + (v.m,)
                    h = X.hooks.get('lock')
                    if h:
                        h(X, v.m)
                    X.write(this, E.LockV(v.m, True))
                    return V(UNIT, [])
                if m == 'owns_lock':
                    return self.bool(z3.BoolVal(v.owns))
            if n == 'std::condition_variable':
                if m in ('notify_one', 'notify_all'):
                    h = X.hooks.get('notify')
                    if h:
                        h(X, this)
                    return V(UNIT, [])
                h = X.hooks.get('wait')
                if h:
                    return h(X, f, this, a, fr, e)
            if n in ('std::basic_stringstream', 'std::basic_ostringstream', 'std::basic_ostream', 'std::basic_ios', 'std::ios_base'):
                if m == 'str':
                    if a:
                        cur = self.v(this)
                        X.write(this, V(cur.s, [self.sv(a[0]), cur.c[1]]))
                        return V(UNIT, [])
                    return self.str(self.v(this).t)
                if m == 'flush':
                    return this
                if m == 'write' and len(a) == 2:
                    t = self.sv(a[0])
                    n2 = self.v(a[1]).t
                    cur = self.v(this)
                    X.write(this, V(cur.s, [X.S.concat(cur.t, X.S.substr(t, z3.IntVal(0), n2)), cur.c[1]]))
                    return this
                if m == 'put':
                    return self.out(this, self.sv(a[0]))
            if n in ('std::runtime_error', 'std::exception', 'std::logic_error') and m == 'what':
                return E.CStr(X.fresh(X.S.sort, 'what'))
            if n == 'std::function' and m == 'swap':
                x, y = self.v(this), self.v(a[0])
                X.write(this, y)
                X.write(a[0], x)
                return V(UNIT, [])
            if n == 'std::pair' and m == 'swap':
                x, y = self.v(this), self.v(a[0])
                X.write(this, y)
                X.write(a[0], x)
                return V(UNIT, [])
            if n == 'std::enable_shared_from_this' and m == 'shared_from_this':
                if isinstance(this, (E.ObjLV, E.HeapLV)):
                    return V(X.shape(f.ret), [this.loc])
                raise Unsupported('shared_from_this on a local')
            if f.n.startswith('~'):
                return V(UNIT, [])
        r = self.free(q, f, a, fr, e)
        if r is not NotImplemented:
            return r
        raise Unsupported('library function ' + f.key[:160])

    def conversion(self, f, n, v):
        X = self.X
        if f.ret.k == 'bool':
            if isinstance(v, E.LockV):
                return self.bool(z3.BoolVal(v.owns))
            if v.s.k in ('ptr', 'fn', 'mptr'):
                return self.bool(v.t != 0)
            if n == 'std::atomic' or n.startswith('std::__atomic'):
                return self.atomic_load(v)
            if v.s.k == 'bool':
                return v
            if v.s.k == 'stream':
                return self.bool(z3.BoolVal(True))
        return v

    def atomic_load(self, v):
        h = self.X.hooks.get('atomic_load')
        return h(self.X, v) if h else v

    def atomic(self, m, f, this, a):
        X = self.X
        v = self.v(this)
        if m == 'load':
            return self.atomic_load(v)
        if m == 'store':
            X.write(this, X.coerce(self.v(a[0]), v.s))
            return V(UNIT, [])
        if m == 'exchange':
            X.write(this, X.coerce(self.v(a[0]), v.s))
            return self.atomic_load(v)
        if m.startswith('compare_exchange'):
            ex = self.v(a[0])
            if X.branch(self.equal(v, ex)):
                X.write(this, X.coerce(self.v(a[1]), v.s))
                return self.bool(z3.BoolVal(True))
            X.write(a[0], v)
            return self.bool(z3.BoolVal(False))
        if m in ('fetch_add', 'fetch_sub'):
            d = self.v(a[0]).t
            X.write(this, V(v.s, [X.wrap(v.t + d if m == 'fetch_add' else v.t - d, v.s)]))
            return v
        raise Unsupported('atomic ' + m)

    def smartptr(self, m, f, this, a):
        X = self.X
        v = self.v(this)
        if m in ('get', 'lock'):
            return V(v.s, v.c)
        if m == 'reset':
            if not a:
                X.write(this, X.zero(v.s))
            else:
                X.write(this, V(v.s, self.v(a[0]).c))
            return V(UNIT, [])
        if m == 'swap':
            w = self.v(a[0])
            X.write(this, w)
            X.write(a[0], v)
            return V(UNIT, [])
        if m == 'release':
            X.write(this, X.zero(v.s))
            return v
        if m in ('use_count', 'unique'):
            # who else shares the object is not tracked: any count is possible
            n = X.fresh(Int, 'use_count')
            X.assume(z3.If(v.t == 0, n == 0, n >= 1))
            return V(X.shape(f.ret), [n]) if m == 'use_count' else self.bool(n == 1)
        raise Unsupported('smart pointer ' + m)

    # -------------------------------------------------------- operators
    def operator(self, op, f, this, a, fr, e):
        X = self.X
        if this is not None:
            xs = [this] + list(a)
        else:
            xs = list(a)
        x0 = self.v(xs[0])
        cn = f.cls.n if f.cls is not None else ''
        if op == '()':
            if isinstance(x0, E.Special):
                h = X.hooks.get('special_call')
                if h:
                    return h(X, x0, xs[1:], f)
                raise Unsupported('call of ' + x0.kind)
            if isinstance(x0, V) and x0.s.k == 'fn':
                return X.call_fn_value(x0, xs[1:], f)
            h = self.ext.get('call ' + cn)
            if h:
                return h(X, f, this, a, fr, e)
            if cn == 'std::uniform_int_distribution' and len(xs) == 2:
                r = X.newsym(X.shape(f.ret), 'random')
                X.assume(z3.And(r.t >= x0.c[0], r.t <= x0.c[1]))
                X.rounds.append(r.t)
                return r
            if cn in ('std::random_device', 'std::mersenne_twister_engine', 'std::linear_congruential_engine'):
                r = X.newsym(X.shape(f.ret), 'random')
                w = [y for y in f.cls.args if isinstance(y, int)]
                if cn == 'std::mersenne_twister_engine' and w:
                    X.assume(r.t < 2 ** w[0])
                X.rounds.append(r.t)
                return r
            raise Unsupported('operator() of ' + cn)
        if op == '=':
            return self.assign(f, xs[0], xs[1], cn)
        if op in ('==', '!='):
            r = self.equal2(x0, self.v(xs[1]))
            return self.bool(r if op == '==' else z3.Not(r))
        if op == '->':
            if isinstance(x0, (E.IterV, E.AddrV)):
                return E.AddrV(self.iter_deref(x0) if isinstance(x0, E.IterV) else x0.lv)
            X.nonnull(x0.t)
            return x0
        if op == '*' and len(xs) == 1:
            if isinstance(x0, E.IterV):
                return self.iter_deref(x0)
            ty = self.thistype(f, this, fr, e, 0)
            return X.deref(x0, ty)
        if op == '[]':
            return self.index(f, xs[0], x0, xs[1])
        if op in ('++', '--'):
            d = 1 if op == '++' else -1
            if isinstance(x0, E.IterV):
                if x0.ver != self.ver(x0.lv):
                    raise Unsupported('iterator advanced after its container changed')
                new = E.IterV(x0.lv, z3.simplify(x0.i + d), x0.ver, x0.rev)
                X.write(xs[0], new)
                return x0 if len(xs) > 1 else xs[0]
            if isinstance(x0, V) and x0.s.k == 'int':
                new = V(x0.s, [X.wrap(x0.t + d, x0.s, add=True)])
                X.write(xs[0], new)
                return x0 if len(xs) > 1 else new
        if op in ('+', '-') and isinstance(x0, E.IterV) or len(xs) > 1 and isinstance(self.v(xs[1]), E.IterV):
            return self.iter_arith(op, x0, self.v(xs[1]))
        if op in ('<', '>', '<=', '>=') and isinstance(x0, E.IterV):
            return self.iter_arith(op, x0, self.v(xs[1]))
        if op in ('+=', '-=') and isinstance(x0, E.IterV):
            d = self.v(xs[1]).t
            X.write(xs[0], E.IterV(x0.lv, z3.simplify(x0.i + d if op == '+=' else x0.i - d), x0.ver, x0.rev))
            return xs[0]
        if op == '+=' and isinstance(x0, V) and x0.s.k == 'str':
            X.write(xs[0], self.str(X.S.concat(x0.t, self.appendable(xs[1]))))
            return xs[0]
        if op == '+':
            return self.str(X.S.concat(self.appendable(xs[0]), self.appendable(xs[1])))
        if op in ('<', '>', '<=', '>='):
            x1 = self.v(xs[1])
            if (isinstance(x0, V) and x0.s.k == 'str') or isinstance(x0, E.CStr):
                p, r = self.sv(x0), self.sv(x1)
                t = {'<': X.S.lt(p, r), '>': X.S.lt(r, p), '<=': z3.Not(X.S.lt(r, p)), '>=': z3.Not(X.S.lt(p, r))}[op]
                return self.bool(t)
            return X.binop(op, x0, x1, BOOL)
        if op == '<<':
            return self.shift_out(xs[0], xs[1], f)
        if op == '!':
            if isinstance(x0, V) and x0.s.k in ('ptr', 'fn'):
                return self.bool(x0.t == 0)
            if isinstance(x0, V) and x0.s.k == 'bool':
                return self.bool(z3.Not(x0.t))
            if isinstance(x0, V) and x0.s.k == 'stream':
                return self.bool(z3.BoolVal(False))
        if op == '|':
            return X.binop('|', x0, self.v(xs[1]), INT)
        if op in ('-', '*', '/') and isinstance(x0, V):
            return X.binop(op, x0, self.v(xs[1]), x0.s)
        if op in ('+=', '-=') and isinstance(x0, V) and x0.s.k == 'int':
            X.write(xs[0], X.binop(op[0], x0, self.v(xs[1]), x0.s))
            return xs[0]
        raise Unsupported('operator%s of %s' % (op, f.key[:120]))

    def thistype(self, f, this, fr, e, i):
        if e is not None and fr is not None:
            arg = e['obj'] if 'obj' in e else e['args'][i]
            return X_T(fr, arg)
        return None

    def appendable(self, x):
        v = self.v(x)
        t = self.sv(v)
        if isinstance(v, E.CStr):
            t = self.X.S.cstr(t)
        return t

    def equal2(self, a, b):
        X = self.X
        sa = isinstance(a, E.CStr) or isinstance(a, V) and a.s.k == 'str'
        sb = isinstance(b, E.CStr) or isinstance(b, V) and b.s.k == 'str'
        if sa and sb:
            ta, tb = self.sv(a), self.sv(b)
            if isinstance(a, E.CStr):
                ta = X.S.cstr(ta)
            if isinstance(b, E.CStr):
                tb = X.S.cstr(tb)
            return ta == tb
        return self.equal(a, b)

    def assign(self, f, dst, src, cn):
        X = self.X
        d = None
        s = dst.s
        v = self.v(src)
        if s.k == 'str':
            t = self.appendable(v)
            if f.js.get('moveassign') and isinstance(src, E.LV):
                self.moved(src)
            X.write(dst, self.str(t))
            return dst
        if s.k == 'seq':
            if isinstance(v, E.IList) or isinstance(v, V) and v.s.k == 'seq':
                if isinstance(v, E.IList):
                    v = self.construct(f, None, [v])
                self.copyable(s)
                X.write(dst, V(s, v.c))
                self.bump(dst)
                if f.js.get('moveassign') and isinstance(src, E.LV) and src.key() != dst.key():
                    X.write(src, X.seq_empty(s))
                    self.bump(src)
                return dst
        if s.k == 'map':
            X.write(dst, V(s, v.c))
            self.bump(dst)
            if f.js.get('moveassign') and isinstance(src, E.LV) and src.key() != dst.key():
                X.write(src, X.map_empty(s))
            return dst
        if s.k == 'ptr':
            if isinstance(v, V):
                X.write(dst, V(s, [v.t]))
                if f.js.get('moveassign') and isinstance(src, E.LV) and src.key() != dst.key():
                    X.write(src, X.zero(X.read(src).s))
                return dst
        if s.k == 'fn':
            X.write(dst, V(FN, X.tov(v, FN).c))
            if f.js.get('moveassign') and isinstance(src, E.LV) and src.key() != dst.key() and X.read(src).s.k == 'fn':
                X.write(src, X.zero(FN))
            return dst
        if isinstance(X.read(dst), (E.IterV,)) or isinstance(v, E.IterV):
            X.write(dst, v)
            return dst
        if isinstance(v, E.LockV):
            raise Unsupported('lock assignment')
        if s.k in ('int', 'bool', 'dbl'):
            X.write(dst, X.convert(v, s))
            return v if cn == 'std::atomic' else dst
        if s.k == 'pair':
            X.write(dst, V(s, v.c))
            return dst
        if s.k == 'unit':
            return dst
        if s.k == 'abs':
            X.write(dst, V(s, v.c))
            if f.js.get('moveassign') and isinstance(src, E.LV) and src.key() != dst.key():
                X.write(src, X.newsym(s, 'moved'))
            return dst
        raise Unsupported('assignment to %s' % s)

    def index(self, f, lv, c, i):
        X = self.X
        if c.s.k == 'map':
            k = self.mk(c.s.a, self.v(i)).t
            had = z3.Select(c.c[0], k)
            if not X.branch(X.sel(c.c[0], k)):
                d = X.map_store(c.c[0], k, True)
                X.write(lv, V(c.s, [d] + [z3.Store(x, k, t) for x, t in zip(c.c[1:], self.default(c.s.b).c)]))
                self.bump(lv)
            return E.MapLV(lv, k, c.s.b)
        iv = self.v(i).t
        if c.s.k == 'seq':
            X.bounds_check(iv, c.t)
            return E.ElemLV(lv, iv, c.s.a)
        if c.s.k == 'str':
            return self.char_lv(E.CStr(c.t, src=lv), iv)
        raise Unsupported('index of %s' % c.s)

    def default(self, s):
        """value-initialised element"""
        X = self.X
        if s.k == 'struct':
            for m in X.prog.recs[s.cls].methods:
                if m.js.get('defctor'):
                    lv = X.cell(X.zero(s), s)
                    r = X.prog.resolve(m)
                    if r.body is not None or r.inits:
                        X.call_ctor(m, lv, [])
                    return X.read(lv)
        return X.zero(s)

    def char_lv(self, c, i):
        """place of one character of a string object"""
        X = self.X
        v = V(CHAR, [self.charval(c.t, i)])
        return CharLV(c.src, c.t, i, X) if c.src is not None else X.cell(v)

    def charval(self, t, i):
        X = self.X
        c = X.S.char(t, i)
        return z3.If(c >= 128, c - 256, c) if X.S.name != 'opaque' else c

    # -------------------------------------------------------- output streams
    def shift_out(self, lv, x, f):
        X = self.X
        x1 = self.v(x)
        if isinstance(x1, E.FnRef):
            n = x1.fn.q
            if n == 'std::endl':
                return self.out(lv, X.S.lit([10]))
            if n == 'std::flush':
                return lv
            if n == 'std::hex' or n == 'std::dec':
                cur = self.v(lv)
                X.write(lv, V(cur.s, [cur.t, z3.IntVal(16 if n == 'std::hex' else 10)]))
                return lv
            raise Unsupported('manipulator ' + n)
        if isinstance(x1, E.Special):
            raise Unsupported('manipulator ' + x1.kind)
        return self.out(lv, self.text(x1, lv))

    def text(self, v, lv=None):
        X = self.X
        if isinstance(v, E.CStr):
            return X.S.cstr(v.t)
        if v.s.k == 'str':
            return v.t
        if v.s.k == 'int' and v.s.w == 8:
            return X.S.fromchar(v.t)
        if v.s.k == 'int' or v.s.k == 'bool':
            base = 10
            if lv is not None:
                fl = z3.simplify(self.v(lv).c[1])
                if z3.is_int_value(fl) and fl.as_long() == 16:
                    base = 16
            return self.itoa(v.t if v.s.k == 'int' else z3.If(v.t, z3.IntVal(1), z3.IntVal(0)), base)
        if v.s.k == 'dbl':
            return z3.Function('dbl.text', Dbl, X.S.sort)(v.t)
        raise Unsupported('streaming %s' % v.s)

    def printf_buf(self, q, a):
        """snprintf into a character array with a literal format"""
        X = self.X
        d = self.v(a[0])
        if not isinstance(d, E.CStr) or d.src is None:
            raise Unsupported(q + ' into something other than a local array')
        cap = getattr(d, 'cap', None)
        k = 1
        n = None
        if q != 'sprintf':
            n = self.v(a[1]).t
            k = 2
        t = z3.simplify(self.sv(a[k]))
        if not z3.is_string_value(t):
            raise Unsupported(q + ' with a computed format')
        t = self.format(t.as_string(), list(a[k + 1:]))
        if cap is not None and n is not None:
            X.check('the size given to snprintf does not exceed the array', n <= cap)
        room = n if n is not None else z3.IntVal(cap)
        if n is None:
            X.check('sprintf stays inside the array', X.S.len(t) < room)
        full = t
        if not X.branch(z3.simplify(X.S.len(t) < room)):
            t = X.S.substr(t, z3.IntVal(0), room - 1)
        X.write(d.src, V(X.STR, [t]))
        return V(INT, [X.S.len(full)])

    def format(self, f, args):
        X = self.X
        parts, i, lit = [], 0, ''
        while i < len(f):
            if f[i] != '%':
                lit += f[i]
                i += 1
                continue
            m = re.match(r'%(l|ll|h|hh|z)?([xuds%])', f[i:])
            if not m:
                raise Unsupported('format ' + f[i:i + 8])
            i += m.end()
            if m.group(2) == '%':
                lit += '%'
                continue
            if lit:
                parts.append(X.S.lit(lit.encode('latin-1')))
                lit = ''
            v = args.pop(0)
            if m.group(2) == 's':
                parts.append(X.S.cstr(self.sv(v)))
            else:
                x = self.v(v)
                w = {'l': 64, 'll': 64, 'z': 64, 'h': 16, 'hh': 8}.get(m.group(1), 32)
                y = x.t if not x.s.sg and x.s.w <= w and m.group(2) != 'd' else X.wrap(x.t, Sh('int', [Int], w=w, sg=m.group(2) == 'd'))
                parts.append(self.itoa(y, 16 if m.group(2) == 'x' else 10))
        if lit:
            parts.append(X.S.lit(lit.encode('latin-1')))
        t = X.S.lit(b'')
        for p in parts:
            t = X.S.concat(t, p)
        return t

    def itoa(self, t, base=10):
        X = self.X
        t = z3.simplify(t)
        if z3.is_int_value(t):
            n = t.as_long()
            return X.S.lit((('%x' % n) if base == 16 else str(n)).encode())
        f = z3.Function('itoa%d' % base, Int, X.S.sort)
        g = z3.Function('atoi%d' % base, X.S.sort, Int)
        X.assume(g(f(t)) == t)          # different numbers have different texts
        X.assume(X.S.len(f(t)) >= 1)
        h = X.hooks.get('itoa')
        if h:
            h(X, f(t), t, base)
        return f(t)

    def out(self, lv, t):
        X = self.X
        cur = self.v(lv)
        h = X.hooks.get('stream_out')
        if h:
            h(X, lv, t)
        X.write(lv, V(cur.s, [X.S.concat(cur.t, t), cur.c[1]]))
        return lv

    # -------------------------------------------------------- std::string
    def substr(self, t, p, n):
        X = self.X
        ln = X.S.len(t)
        X.typed(V(X.STR, [t]))
        if X.branch(z3.simplify(p > ln)):
            raise E.CxxThrow('std::out_of_range')
        cnt = z3.simplify(z3.If(n > ln - p, ln - p, n))
        if X.S.name == 'opaque':
            r = X.S.substr(t, p, cnt)
            X.assume(X.S.len(r) == cnt)
            return self.str(r)
        return self.str(X.S.substr(t, p, cnt))

    def string(self, m, f, this, a):
        X = self.X
        S = X.S
        v = self.v(this)
        t = v.t
        if m in ('size', 'length'):
            X.typed(v)
            return self.size(S.len(t))
        if m == 'empty':
            return self.bool(t == S.lit([]))
        if m in ('c_str', 'data'):
            return E.CStr(t)
        if m == 'clear':
            X.write(this, self.str(S.lit([])))
            return V(UNIT, [])
        if m == 'substr':
            p = self.v(a[0]).t if a else z3.IntVal(0)
            n = self.v(a[1]).t if len(a) > 1 else z3.IntVal(NPOS)
            return self.substr(t, p, n)
        if m in ('append', 'operator+='):
            if len(a) == 1:
                X.write(this, self.str(S.concat(t, self.appendable(a[0]))))
                return this
            if len(a) == 2 and isinstance(self.v(a[0]), V) and self.v(a[0]).s.k == 'int':
                r = self.repeat(self.v(a[0]).t, self.v(a[1]).t)
                X.write(this, self.str(S.concat(t, r)))
                return this
            if len(a) >= 2 and isinstance(self.v(a[1]), V) and self.v(a[1]).s.k == 'int':
                src = self.v(a[0])
                if isinstance(src, E.CStr):
                    r = S.substr(src.t, z3.IntVal(0), self.v(a[1]).t)
                else:
                    n = self.v(a[2]).t if len(a) > 2 else z3.IntVal(NPOS)
                    r = self.substr(self.sv(src), self.v(a[1]).t, n).t
                X.write(this, self.str(S.concat(t, r)))
                return this
        if m == 'push_back':
            X.write(this, self.str(S.concat(t, S.fromchar(self.v(a[0]).t))))
            return V(UNIT, [])
        if m == 'pop_back':
            X.write(this, self.str(S.substr(t, z3.IntVal(0), S.len(t) - 1)))
            return V(UNIT, [])
        if m == 'assign':
            if len(a) == 1:
                X.write(this, self.str(self.appendable(a[0])))
                return this
            if len(a) >= 2 and isinstance(self.v(a[1]), V) and self.v(a[1]).s.k == 'int':
                src = self.v(a[0])
                n = self.v(a[2]).t if len(a) > 2 else z3.IntVal(NPOS)
                r = S.substr(src.t, z3.IntVal(0), self.v(a[1]).t) if isinstance(src, E.CStr) else self.substr(self.sv(src), self.v(a[1]).t, n).t
                X.write(this, self.str(r))
                return this
        if m in ('at', 'back', 'front', 'operator[]'):
            ln = S.len(t)
            i = self.v(a[0]).t if a else (z3.IntVal(0) if m == 'front' else ln - 1)
            if m == 'at':
                if X.branch(i >= ln):
                    raise E.CxxThrow('std::out_of_range')
            return self.char_lv(E.CStr(t, src=this), i)
        if m == 'compare':
            if len(a) == 1:
                o = self.appendable(a[0])
            elif len(a) == 3:
                p, n = self.v(a[0]).t, self.v(a[1]).t
                t = self.substr(t, p, n).t
                o = self.appendable(a[2])
            else:
                raise Unsupported('compare')
            return V(INT, [z3.If(t == o, 0, z3.If(S.lt(t, o), -1, 1))])
        if m in ('find', 'find_first_of', 'rfind', 'find_last_of'):
            pv = self.v(a[0])
            pat = self.appendable(pv)
            single = isinstance(pv, V) and pv.s.k == 'int'
            if not single:
                p2 = z3.simplify(pat)
                single = z3.is_string_value(p2) and len(p2.as_string()) == 1 or X.S.name == 'opaque' and any(pat.eq(c) and len(b) == 1 for b, c in X.S.lits.items())
                if m in ('find_first_of', 'find_last_of') and not single:
                    raise Unsupported('find_first_of with several characters')
            pos = self.v(a[1]).t if len(a) > 1 else z3.IntVal(0 if m in ('find', 'find_first_of') else NPOS)
            if m in ('find', 'find_first_of'):
                r = S.find(t, pat, pos)
                if X.S.name == 'opaque':
                    X.assume(z3.And(r >= -1, r < S.len(t) + 1))
                    X.assume(z3.Implies(r >= 0, r + S.len(pat) <= S.len(t)))
                elif not single and z3.is_int_value(z3.simplify(pos)) and z3.simplify(pos).as_long() == 0 and not X.hooks.get('plain_find'):
                    X.assume((r == 0) == z3.PrefixOf(pat, t))
                if X.branch(r < 0) :
                    return self.size(z3.IntVal(NPOS))
                return self.size(r)
            pz = z3.simplify(pos)
            limit = not (z3.is_int_value(pz) and pz.as_long() >= (1 << 62))
            if limit and not single and m == 'rfind':
                # an occurrence starting at or before pos lies in the first pos + |pat| characters
                np = S.len(pat)
                if X.branch(np > S.len(t)):
                    return self.size(z3.IntVal(NPOS))
                if z3.is_int_value(pz) and pz.as_long() == 0:
                    # does the text start with it
                    if X.branch(S.substr(t, z3.IntVal(0), np) == pat):
                        return self.size(z3.IntVal(0))
                    return self.size(z3.IntVal(NPOS))
                if X.S.name == 'opaque':
                    raise Unsupported('rfind from a position')
                tt = S.substr(t, z3.IntVal(0), z3.If(pos + np >= S.len(t), S.len(t), pos + np))
            elif limit:
                # last occurrence starting at or before pos: search the prefix
                if not single:
                    raise Unsupported('find_last_of from a position')
                tt = S.substr(t, z3.IntVal(0), z3.If(pos >= S.len(t), S.len(t), pos + 1))
            else:
                tt = t
            if not single and m == 'rfind':
                r = z3.simplify(z3.LastIndexOf(tt, pat)) if X.S.name != 'opaque' else X.fresh(Int, 'rfind')
            else:
                r = X.fresh(Int, 'rfind')
                for fct in S.rfind_facts(tt, pat, r):
                    X.assume(fct)
            if X.branch(r < 0):
                return self.size(z3.IntVal(NPOS))
            return self.size(r)
        if m in ('find_last_not_of', 'find_first_not_of'):
            raise Unsupported(m)
        if m == 'erase':
            if all(isinstance(self.v(x), V) for x in a):
                p = self.v(a[0]).t if a else z3.IntVal(0)
                n = self.v(a[1]).t if len(a) > 1 else z3.IntVal(NPOS)
                ln = S.len(t)
                if X.branch(p > ln):
                    raise E.CxxThrow('std::out_of_range')
                cnt = z3.If(n > ln - p, ln - p, n)
                X.write(this, self.str(S.concat(S.substr(t, z3.IntVal(0), p), S.substr(t, p + cnt, ln - p - cnt))))
                return this
        if m == 'insert' and len(a) == 2 and isinstance(self.v(a[0]), V) and self.v(a[0]).s.k == 'int':
            p = self.v(a[0]).t
            ln = S.len(t)
            if X.branch(p > ln):
                raise E.CxxThrow('std::out_of_range')
            X.write(this, self.str(S.concat(S.concat(S.substr(t, z3.IntVal(0), p), self.appendable(a[1])), S.substr(t, p, ln - p))))
            return this
        if m == 'replace' and len(a) == 3 and all(isinstance(self.v(x), V) and self.v(x).s.k == 'int' for x in a[:2]):
            p, n = self.v(a[0]).t, self.v(a[1]).t
            ln = S.len(t)
            if X.branch(p > ln):
                raise E.CxxThrow('std::out_of_range')
            cnt = z3.If(n > ln - p, ln - p, n)
            X.write(this, self.str(S.concat(S.concat(S.substr(t, z3.IntVal(0), p), self.appendable(a[2])), S.substr(t, p + cnt, ln - p - cnt))))
            return this
        if m == 'swap':
            o = self.v(a[0])
            X.write(a[0], v)
            X.write(this, o)
            return V(UNIT, [])
        if m == 'reserve' or m == 'shrink_to_fit':
            return V(UNIT, [])
        if m in ('begin', 'cbegin'):
            return E.IterV(this, z3.IntVal(0), 0)
        if m in ('end', 'cend'):
            return E.IterV(this, S.len(t), 0)
        if m in ('max_size', 'capacity'):
            return self.size(z3.IntVal(1 << 62))
        if m == 'resize' and len(a) == 1:
            n = self.v(a[0]).t
            if X.branch(n <= S.len(t)):
                X.write(this, self.str(S.substr(t, z3.IntVal(0), n)))
                return V(UNIT, [])
        raise Unsupported('std::string::%s/%d' % (m, len(a)))

    def repeat(self, n, ch):
        X = self.X
        f = z3.Function('str.repeat', Int, Int, X.S.sort)
        r = f(n, ch)
        X.assume(X.S.len(r) == n)
        return r

    # -------------------------------------------------------- sequences
    def elem_from(self, c, f, a, e, fr):
        """element built by push_back / emplace from its arguments"""
        X = self.X
        s = c.s.a
        if e is not None and 'ctor' in e and s.k == 'struct':
            lv = X.cell(X.undef(s), s)
            X.call_ctor(fr.tu.fns[e['ctor']], lv, self.ctor_args(fr, e, a))
            return X.read(lv)
        if s.k == 'struct' and len(a) == 1:
            v = self.v(a[0])
            cc = self.copy_ctor(s.cls)
            if cc is not None:
                lv = X.cell(X.undef(s), s)
                X.call_ctor(cc, lv, [X.place(v)])
                return X.read(lv)
            return v
        if s.k == 'pair' and len(a) == 2:
            return V(s, self.mk(s.a, self.v(a[0])).c + self.mk(s.b, self.v(a[1])).c)
        if not a:
            return self.default(s)
        if len(a) == 1:
            v = self.mk(s, self.v(a[0])) if not (s.k == 'str') else self.str(self.appendable(a[0]))
            if isinstance(a[0], E.LV) and f.pt and f.pt[-1].k == 'ref' and f.pt[-1].rv and f.n.startswith('push') and s.k in ('str',):
                self.moved(a[0])
            return v
        if s.k == 'str':
            t = self.sv(a[0])
            if len(a) == 2 and isinstance(self.v(a[0]), E.CStr):
                return self.str(X.S.substr(t, z3.IntVal(0), self.v(a[1]).t))
            if len(a) >= 2:
                return self.substr(t, self.v(a[1]).t, self.v(a[2]).t if len(a) > 2 else z3.IntVal(NPOS))
        raise Unsupported('element construction')

    def copy_ctor(self, cls):
        X = self.X
        rec = X.prog.recs.get(cls)
        for m in (rec.methods if rec else []):
            if m.js.get('copyctor'):
                r = X.prog.resolve(m)
                if r.body is not None or r.inits:
                    return r
        return None

    def ctor_args(self, fr, e, a):
        """arguments as the constructor called inside make_shared/emplace receives them"""
        X = self.X
        off = e['ctornp'] - len(a)

        def conv(c):
            k = c['k']
            if k == 'fwd':
                i = c['i'] - off
                if i < 0 or i >= len(a):
                    raise Unsupported('forwarded argument')
                return a[i]
            if k == 'default':
                return X.ev(fr, c['e'])
            if k == 'construct':
                fn = fr.tu.fns[c['fn']]
                return X.construct(fn, fr.tu.types[c['t']], [conv(x) for x in c['args']])
            if k == 'cast':
                x = conv(c['e'])
                ty = fr.tu.types[c['t']]
                if 'conv' in c:
                    fn = fr.tu.fns[c['conv']]
                    if fn.ctor:
                        return x
                    return X.call(fn, X.place(x), [])
                if c['ck'] in ('LValueToRValue',):
                    return self.v(x)
                v = self.v(x)
                if c['ck'] == 'ArrayToPointerDecay':
                    if isinstance(v, V) and v.s.k == 'str':
                        return E.CStr(v.t)
                    return E.AddrV(x)
                if isinstance(v, V) and v.s.k in ('int', 'bool', 'dbl', 'ptr') and X.shape(ty).k in ('int', 'bool', 'dbl'):
                    return X.convert(v, X.shape(ty))
                return x
            raise Unsupported('argument conversion inside the library')
        return [conv(c) for c in e['ctorargs']]

    def push(self, lv, c, v):
        X = self.X
        v = X.coerce(v, c.s.a)
        X.write(lv, V(c.s, [z3.simplify(c.t + 1)] + [z3.Store(x, c.t, t) for x, t in zip(c.c[1:], v.c)]))

    def shift(self, c, at, by, fill=None):
        """sequence with positions >= at moved by `by` (insertion or erasure)"""
        X = self.X
        n = [X.fresh(x.sort(), 'shf') for x in c.c[1:]]
        i = z3.Const('i', Int)
        for x, y in zip(n, c.c[1:]):
            if by < 0:
                X.assume(z3.ForAll([i], z3.Select(x, i) == z3.If(i < at, z3.Select(y, i), z3.Select(y, i - by)), patterns=[z3.Select(x, i)]))
            else:
                X.assume(z3.ForAll([i], z3.Implies(z3.Or(i < at, i >= at + by), z3.Select(x, i) == z3.If(i < at, z3.Select(y, i), z3.Select(y, i - by))), patterns=[z3.Select(x, i)]))
        for x in n:
            X.bounds[x.decl().name()] = X.st.nxt
        return V(c.s, [z3.simplify(c.t + by)] + n)

    def seq(self, m, f, this, a, fr, e):
        X = self.X
        c = self.v(this)
        if m in ('size', 'length'):
            return self.size(c.t)
        if m == 'empty':
            return self.bool(c.t == 0)
        if m in ('begin', 'cbegin'):
            return E.IterV(this, z3.IntVal(0), self.ver(this))
        if m in ('end', 'cend'):
            return E.IterV(this, c.t, self.ver(this))
        if m in ('rbegin', 'crbegin'):
            return E.IterV(this, z3.IntVal(0), self.ver(this), True)
        if m in ('rend', 'crend'):
            return E.IterV(this, c.t, self.ver(this), True)
        if m in ('push_back', 'emplace_back'):
            v = self.elem_from(c, f, a, e, fr)
            c = self.v(this)
            self.push(this, c, v)
            return E.ElemLV(this, c.t, c.s.a) if m == 'emplace_back' else V(UNIT, [])
        if m in ('push_front', 'emplace_front'):
            v = self.elem_from(c, f, a, e, fr)
            n = self.shift(c, z3.IntVal(0), 1)
            X.write(this, V(c.s, [n.t] + [z3.Store(x, z3.IntVal(0), t) for x, t in zip(n.c[1:], X.coerce(v, c.s.a).c)]))
            self.bump(this)
            return V(UNIT, [])
        if m == 'clear':
            X.write(this, X.seq_empty(c.s))
            self.bump(this)
            return V(UNIT, [])
        if m in ('front', 'back'):
            X.bounds_check(z3.IntVal(0), c.t)
            return E.ElemLV(this, z3.IntVal(0) if m == 'front' else z3.simplify(c.t - 1), c.s.a)
        if m == 'pop_back':
            X.bounds_check(z3.IntVal(0), c.t)
            X.write(this, V(c.s, (z3.simplify(c.t - 1),) + c.c[1:]))
            return V(UNIT, [])
        if m == 'pop_front':
            X.bounds_check(z3.IntVal(0), c.t)
            X.write(this, self.shift(c, z3.IntVal(0), -1))
            self.bump(this)
            return V(UNIT, [])
        if m == 'at':
            i = self.v(a[0]).t
            if X.branch(z3.Or(i < 0, i >= c.t)):
                raise E.CxxThrow('std::out_of_range')
            return E.ElemLV(this, i, c.s.a)
        if m == 'erase' and len(a) == 1:
            it = self.v(a[0])
            if it.ver != self.ver(this) or it.lv.key() != this.key():
                raise Unsupported('erase through a stale iterator')
            X.bounds_check(it.i, c.t)
            X.write(this, self.shift(c, it.i, -1))
            self.bump(this)
            return E.IterV(this, it.i, self.ver(this))
        if m in ('insert', 'emplace') and len(a) == 2 and isinstance(self.v(a[0]), E.IterV) and not isinstance(self.v(a[1]), (E.IterV, E.IList)):
            it = self.v(a[0])
            v = self.elem_from(c, f, a[1:], None, fr)
            n = self.shift(c, it.i, 1)
            X.write(this, V(c.s, [n.t] + [z3.Store(x, it.i, t) for x, t in zip(n.c[1:], X.coerce(v, c.s.a).c)]))
            self.bump(this)
            return E.IterV(this, it.i, self.ver(this))
        if m == 'erase' and len(a) == 2:
            x, y = self.v(a[0]), self.v(a[1])
            if z3.is_int_value(x.i) and x.i.as_long() == 0 and X.entails(y.i == c.t):
                X.write(this, X.seq_empty(c.s))
                self.bump(this)
                return E.IterV(this, z3.IntVal(0), self.ver(this))
        if m == 'remove':
            val = self.mk(c.s.a, self.v(a[0]))
            keep = lambda el: z3.Not(self.equal(el, val))
            self.filter(this, c, keep)
            return V(UNIT, [])
        if m in ('remove_if',):
            keep = self.pred(self.v(a[0]), c.s.a, neg=True)
            self.filter(this, c, keep)
            return V(UNIT, [])
        if m == 'swap':
            o = self.v(a[0])
            X.write(this, V(c.s, o.c))
            X.write(a[0], V(c.s, c.c))
            self.bump(this)
            self.bump(a[0])
            return V(UNIT, [])
        if m in ('reserve', 'shrink_to_fit'):
            return V(UNIT, [])
        if m == 'assign' and len(a) == 2 and isinstance(self.v(a[0]), E.IterV):
            X.write(this, self.seq_range(c.s, self.v(a[0]), self.v(a[1])))
            self.bump(this)
            return V(UNIT, [])
        if m == 'resize' and len(a) == 1:
            n = self.v(a[0]).t
            if X.branch(n <= c.t):
                X.write(this, V(c.s, (n,) + c.c[1:]))
                return V(UNIT, [])
        if m == 'data':
            return E.AddrV(this)
        raise Unsupported('sequence %s/%d' % (m, len(a)))

    def filter(self, lv, c, keep):
        """keep exactly the elements satisfying keep, in order"""
        X = self.X
        new = X.newsym(c.s, 'flt')
        X.st.ctr += 1
        f = z3.Function('fsrc!%d' % X.st.ctr, Int, Int)
        g = z3.Function('fdst!%d' % X.st.ctr, Int, Int)
        i, j = z3.Const('i', Int), z3.Const('j', Int)
        at = lambda arrs, ix: V(c.s.a, [z3.Select(x, ix) for x in arrs])
        o = list(c.c[1:])
        n = list(new.c[1:])
        X.assume(new.t <= c.t)
        X.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < new.t), z3.And([f(j) >= 0, f(j) < c.t, g(f(j)) == j, keep(at(o, f(j)))] + [z3.Select(x, j) == z3.Select(y, f(j)) for x, y in zip(n, o)])),
                           patterns=[z3.Select(n[0], j), f(j)] if False else [z3.Select(n[0], j)]))
        X.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < c.t, keep(at(o, i))), z3.And(g(i) >= 0, g(i) < new.t, f(g(i)) == i, z3.Select(n[0], g(i)) == z3.Select(o[0], i))), patterns=[z3.Select(o[0], i)]))
        X.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < new.t), f(i) < f(j)), patterns=[z3.MultiPattern(f(i), f(j))]))
        X.st.ghost['filter:%d' % X.st.ctr] = None
        X.write(lv, new)
        self.bump(lv)
        return new

    def pred(self, v, s, neg=False):
        """boolean formula of a pure predicate closure over an element"""
        X = self.X

        def p(el):
            r = self.pure_bool(v, el)
            return z3.Not(r) if neg else r
        return p

    def pure_bool(self, v, el):
        """value of a side-effect free predicate on el as one formula (merging its paths)"""
        X = self.X
        base = X.st.copy()
        n0 = len(base.pc)
        X.quiet += 1
        try:
            outs = X.explore(lambda: X.call_fn_value(v, [X.cell(el)], None))
        finally:
            X.quiet -= 1
        r = z3.BoolVal(False)
        for st, (k, val) in outs:
            if k != 'ok':
                raise Unsupported('predicate throws')
            path = st.pc[n0:]
            r = z3.Or(r, z3.And(path + [X.convert(val, BOOL).t]))
        return r

    # -------------------------------------------------------- maps
    def map(self, m, f, this, a, fr, e):
        X = self.X
        c = self.v(this)
        dom = c.c[0]
        if m == 'size':
            X.typed(c)
            return self.size(X.card(dom))
        if m == 'empty':
            X.typed(c)
            k = z3.Const('k', c.s.a.sorts[0])
            X.map_axioms(dom)
            w = X.keyat(dom, z3.IntVal(0))
            X.assume(z3.Implies(X.card(dom) > 0, z3.Select(dom, w)))
            return self.bool(X.card(dom) == 0)
        if m in ('begin', 'cbegin'):
            X.map_axioms(dom)
            return E.IterV(this, z3.IntVal(0), self.ver(this))
        if m in ('end', 'cend'):
            X.typed(c)
            return E.IterV(this, X.card(dom), self.ver(this))
        if m in ('rbegin', 'crbegin') and 'unordered' not in f.cls.n:
            X.map_axioms(dom)
            return E.IterV(this, z3.IntVal(0), self.ver(this), True)
        if m in ('rend', 'crend') and 'unordered' not in f.cls.n:
            X.typed(c)
            return E.IterV(this, X.card(dom), self.ver(this), True)
        if m == 'find':
            k = self.mk(c.s.a, self.v(a[0])).t
            X.map_axioms(dom)
            X.map_index(dom, k)
            return E.IterV(this, z3.If(X.sel(dom, k), X.idxof(dom, k), X.card(dom)), self.ver(this))
        if m == 'count' or m == 'contains':
            k = self.mk(c.s.a, self.v(a[0])).t
            if m == 'contains':
                return self.bool(X.sel(dom, k))
            return self.size(z3.If(X.sel(dom, k), z3.IntVal(1), z3.IntVal(0)))
        if m == 'at':
            k = self.mk(c.s.a, self.v(a[0])).t
            if not X.branch(X.sel(dom, k)):
                raise E.CxxThrow('std::out_of_range')
            return E.MapLV(this, k, c.s.b)
        if m == 'clear':
            X.write(this, X.map_empty(c.s))
            self.bump(this)
            return V(UNIT, [])
        if m == 'erase' and len(a) == 1:
            x = self.v(a[0])
            if isinstance(x, E.IterV):
                if x.ver != self.ver(this) or x.lv.key() != this.key():
                    raise Unsupported('erase through a stale iterator')
                X.bounds_check(x.i, X.card(dom))
                X.map_axioms(dom)
                k = X.keyat(dom, x.i)
                X.assume(z3.Select(dom, k))
                it = z3.simplify(x.i)
                # find(k) then erase: name the key directly
                if z3.is_app(x.i) and x.i.decl().kind() == z3.Z3_OP_ITE and x.i.arg(1).decl().name().startswith('idxof'):
                    kk = x.i.arg(1).arg(1)
                    X.assume(k == kk)
                    k = kk
                nd = X.map_store(dom, k, False)
                X.write(this, V(c.s, (nd,) + c.c[1:]))
                self.bump(this)
                X.map_axioms(nd)
                # the order of the remaining keys is unchanged
                i = z3.Const('i', Int)
                X.assume(z3.ForAll([i], X.keyat(nd, i) == z3.If(i < x.i, X.keyat(dom, i), X.keyat(dom, i + 1)), patterns=[X.keyat(nd, i)]))
                return E.IterV(this, x.i, self.ver(this))
            k = self.mk(c.s.a, x).t
            had = X.sel(dom, k)
            nd = X.map_store(dom, k, False)
            X.write(this, V(c.s, (nd,) + c.c[1:]))
            self.bump(this)
            return self.size(z3.If(had, z3.IntVal(1), z3.IntVal(0)))
        if m in ('insert', 'emplace', 'insert_or_assign', 'try_emplace'):
            if len(a) == 1:
                p = self.v(a[0])
                if c.s.b.n == 0:
                    k, v = self.mk(c.s.a, p), V(UNIT, [])
                else:
                    if not (isinstance(p, V) and p.s.k == 'pair'):
                        raise Unsupported('map insert')
                    k = V(c.s.a, self.mk(c.s.a, V(p.s.a, p.c[:p.s.a.n])).c)
                    v = self.mk(c.s.b, V(p.s.b, p.c[p.s.a.n:]))
            elif len(a) == 2 and not isinstance(self.v(a[0]), E.IterV):
                k = self.mk(c.s.a, self.v(a[0])) if c.s.a.k != 'str' else self.str(self.appendable(a[0]))
                v = self.mk(c.s.b, self.v(a[1])) if c.s.b.k != 'str' else self.str(self.appendable(a[1]))
            else:
                raise Unsupported('map ' + m)
            had = X.branch(X.sel(dom, k.t))
            if not had or m == 'insert_or_assign':
                nd = dom if had else X.map_store(dom, k.t, True)
                X.write(this, V(c.s, [nd] + [z3.Store(x, k.t, t) for x, t in zip(c.c[1:], X.coerce(v, c.s.b).c)]))
                if not had:
                    self.bump(this)
            c2 = self.v(this)
            X.map_axioms(c2.c[0])
            X.map_index(c2.c[0], k.t)
            it = E.IterV(this, X.idxof(c2.c[0], k.t), self.ver(this))
            return PairOf(it, self.bool(z3.BoolVal(not had)), X)
        if m == 'swap':
            o = self.v(a[0])
            X.write(this, V(c.s, o.c))
            X.write(a[0], V(c.s, c.c))
            self.bump(this)
            self.bump(a[0])
            return V(UNIT, [])
        raise Unsupported('map %s/%d' % (m, len(a)))

    # -------------------------------------------------------- free functions
    def free(self, q, f, a, fr, e):
        X = self.X
        if q in ('std::make_shared', 'std::make_unique', 'std::allocate_shared'):
            return self.make_shared(f, a, fr, e)
        if q in ('std::dynamic_pointer_cast', 'std::static_pointer_cast', 'std::const_pointer_cast'):
            v = self.v(a[0])
            to = f.ret
            s = X.shape(to)
            if q == 'std::dynamic_pointer_cast':
                cls = strip_const(to.args[0].s)
                c = z3.simplify(z3.And(v.t != 0, X.isdyn(v.t, cls)))
                if z3.is_false(c):
                    return V(s, [z3.IntVal(0)])
                if X.branch(c):
                    return V(s, [v.t])
                return V(s, [z3.IntVal(0)])
            return V(s, [v.t])
        if q in ('snprintf', 'std::snprintf', 'sprintf'):
            return self.printf_buf(q, a)
        if q == 'std::to_string':
            return self.str(self.text(self.v(a[0])))
        if q in ('std::min', 'std::max') and len(a) == 2:
            x, y = self.v(a[0]), self.v(a[1])
            if x.s.k == 'int':
                c = (y.t < x.t) if q == 'std::min' else (x.t < y.t)
                return X.cell(V(x.s, [z3.simplify(z3.If(c, y.t, x.t))]))
        if q == 'std::swap' and len(a) == 2:
            x, y = self.v(a[0]), self.v(a[1])
            X.write(a[0], y)
            X.write(a[1], x)
            for z in a:
                if isinstance(z, E.LV):
                    self.bump(z)
            return V(UNIT, [])
        if q == 'std::advance':
            it = self.v(a[0])
            X.write(a[0], E.IterV(it.lv, z3.simplify(it.i + self.v(a[1]).t), it.ver, it.rev))
            return V(UNIT, [])
        if q in ('std::next', 'std::prev'):
            it = self.v(a[0])
            d = self.v(a[1]).t if len(a) > 1 else z3.IntVal(1)
            return E.IterV(it.lv, z3.simplify(it.i + d if q == 'std::next' else it.i - d), it.ver, it.rev)
        if q == 'std::distance':
            return V(LONG, [self.v(a[1]).i - self.v(a[0]).i])
        if q in ('std::begin', 'std::end', 'std::cbegin', 'std::cend', 'std::size', 'std::empty'):
            n = q[5:]
            c = self.v(a[0])
            if c.s.k == 'seq':
                return self.seq(n, f, a[0], [], fr, e)
            if c.s.k == 'map':
                return self.map(n, f, a[0], [], fr, e)
        if q in ('std::find', 'std::find_if', 'std::find_if_not', 'std::any_of', 'std::none_of', 'std::all_of', 'std::count', 'std::count_if'):
            return self.search(q, f, a)
        if q == 'std::equal' and len(a) in (3, 4):
            i1, e1, i2 = [self.v(x) for x in a[:3]]
            s1, s2 = X.read(i1.lv), X.read(i2.lv)
            n = e1.i - i1.i
            if s1.s.k == 'str' and s2.s.k == 'str' and not (i1.rev or i2.rev):
                S = X.S
                if len(a) == 4:
                    if not X.branch(z3.simplify(n == self.v(a[3]).i - i2.i)):
                        return self.bool(z3.BoolVal(False))
                x = z3.simplify(n)
                whole = z3.is_true(z3.simplify(z3.And(i1.i == 0, e1.i == S.len(s1.t))))
                left = s1.t if whole else S.substr(s1.t, i1.i, x)
                if len(a) == 3:
                    # the second text must not be left before a difference is found
                    rest = S.len(s2.t) - i2.i
                    if not X.branch(z3.simplify(x <= rest)):
                        X.check('std::equal stays within the second text', S.substr(s1.t, i1.i, rest) != S.substr(s2.t, i2.i, rest), tag='safety')
                        return self.bool(z3.BoolVal(False))
                whole = z3.is_true(z3.simplify(z3.And(i2.i == 0, x == S.len(s2.t))))
                return self.bool(left == (s2.t if whole else S.substr(s2.t, i2.i, x)))
            if s1.s.k != 'seq' or s2.s.k != 'seq':
                raise Unsupported('std::equal on %s' % s1.s.k)
            if len(a) == 4:
                n2 = self.v(a[3]).i - i2.i
                if not X.branch(n == n2):
                    return self.bool(z3.BoolVal(False))
            else:
                # the second range must be at least as long as the first, or the code reads past its end
                j = z3.Const('j', Int)
                elq = self.equal(V(s1.s.a, [z3.Select(x, j + i1.i) for x in s1.c[1:]]), V(s2.s.a, [z3.Select(x, j + i2.i) for x in s2.c[1:]]))
                fits = z3.Or(i2.i + n <= s2.t, z3.Exists([j], z3.And(j >= 0, j < s2.t - i2.i, j < n, z3.Not(elq))))
                X.check('std::equal stays within the second list', fits, tag='safety')
            j = z3.Const('j', Int)
            elq = self.equal(V(s1.s.a, [z3.Select(x, j + i1.i) for x in s1.c[1:]]), V(s2.s.a, [z3.Select(x, j + i2.i) for x in s2.c[1:]]))
            return self.bool(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), elq)))
        if q == 'std::make_pair':
            v1, v2 = self.v(a[0]), self.v(a[1])
            s = X.shape(f.ret)
            return V(s, self.mk(s.a, v1).c + self.mk(s.b, v2).c)
        if q in ('std::remove', 'std::remove_if'):
            i, en = self.v(a[0]), self.v(a[1])
            raise Unsupported(q)
        if q == 'std::getline':
            raise Unsupported(q)
        if q in ('strlen', 'std::strlen'):
            t = self.X.S.cstr(self.sv(a[0]))
            X.typed(V(X.STR, [t]))
            return self.size(X.S.len(t))
        if q in ('strcmp', 'std::strcmp'):
            x, y = X.S.cstr(self.sv(a[0])), X.S.cstr(self.sv(a[1]))
            return V(INT, [z3.If(x == y, 0, z3.If(X.S.lt(x, y), -1, 1))])
        if q in ('memcpy', 'std::memcpy', 'memmove', 'std::memmove'):
            d, sr, n = [self.v(x) for x in a]
            if all(isinstance(x, V) and x.s.k == 'mptr' for x in (d, sr)):
                if 'memcpy' in q:
                    X.check('memcpy ranges do not overlap', z3.Or(n.t == 0, d.c[0] != sr.c[0], d.c[1] + n.t <= sr.c[1], sr.c[1] + n.t <= d.c[1]), tag='safety')
                self.memcpy(d, sr, n.t)
                return d
        if q == 'std::copy' and len(a) == 3 and all(isinstance(self.v(x), V) and self.v(x).s.k == 'mptr' for x in a):
            b0, e0, d = [self.v(x) for x in a]
            X.check('std::copy range is valid', z3.And(b0.c[0] == e0.c[0], b0.c[1] <= e0.c[1]), tag='safety')
            n = e0.c[1] - b0.c[1]
            self.memcpy(d, b0, n)
            return V(MPTR, [d.c[0], d.c[1] + n])
        if q == 'std::copy_n' and len(a) == 3 and all(isinstance(self.v(x), V) and self.v(x).s.k == 'mptr' for x in (a[0], a[2])):
            b0, n, d = [self.v(x) for x in a]
            self.memcpy(d, b0, n.t)
            return V(MPTR, [d.c[0], d.c[1] + n.t])
        if q == 'std::operator|':
            return X.binop('|', self.v(a[0]), self.v(a[1]), INT)
        if q == 'std::for_each':
            raise Unsupported(q)
        if q in ('std::copy', 'std::transform'):
            raise Unsupported(q)
        return NotImplemented

    def make_shared(self, f, a, fr, e):
        X = self.X
        to = f.ret.args[0]
        cn = strip_const(to.s)
        s = X.shape(to)
        loc = X.alloc(cn)
        lv = X.objlv(loc, to)
        if isinstance(lv, E.ObjLV):
            if e is None or 'ctor' not in e:
                if not a:
                    pass
                else:
                    raise Unsupported('make_shared<%s>' % cn)
            else:
                X.call_ctor(fr.tu.fns[e['ctor']], lv, self.ctor_args(fr, e, a))
        else:
            v = self.elem_from(V(Sh('seq', [], a=s), []), f, a, None, fr)
            X.write(lv, v)
        return V(X.shape(f.ret), [loc])

    def search(self, q, f, a):
        X = self.X
        i0, e0 = self.v(a[0]), self.v(a[1])
        if not isinstance(i0, E.IterV):
            raise Unsupported(q)
        c = X.read(i0.lv)
        if c.s.k == 'seq':
            el = lambda j: V(c.s.a, [z3.Select(x, j) for x in c.c[1:]])
        elif c.s.k == 'map':
            X.map_axioms(c.c[0])

            def el(j):
                k = X.keyat(c.c[0], j)
                return V(pair_shape(c.s.a, c.s.b), [k] + [z3.Select(x, k) for x in c.c[1:]])
        else:
            raise Unsupported(q)
        pv = self.v(a[2])
        if q in ('std::find', 'std::count'):
            val = pv
            P = lambda x: self.equal(x, self.mk(x.s, val))
        else:
            if c.s.k == 'map':
                raise Unsupported(q + ' on a map')
            P = lambda x: self.pure_bool(pv, x)
        if q in ('std::count', 'std::count_if'):
            raise Unsupported(q)
        neg = q in ('std::find_if_not', 'std::all_of')
        # witness: first index whose element satisfies the predicate
        w = X.fresh(Int, 'fnd')
        X.assume(z3.And(w >= i0.i, w <= e0.i))
        j = z3.Const('j', Int)
        sk = X.fresh(Int, 'any')
        Pj = P(el(j))
        Pw = P(el(w))
        if neg:
            Pj, Pw = z3.Not(Pj), z3.Not(Pw)
        X.assume(z3.ForAll([j], z3.Implies(z3.And(j >= i0.i, j < w), z3.Not(Pj)), patterns=[z3.Select(c.c[1], j)] if c.s.k == 'seq' else []))
        found = X.branch(w < e0.i)
        if found:
            X.assume(Pw)
        if q in ('std::find', 'std::find_if', 'std::find_if_not'):
            return E.IterV(i0.lv, w, i0.ver)
        if q == 'std::any_of':
            return self.bool(z3.BoolVal(found))
        return self.bool(z3.BoolVal(not found))

    # -------------------------------------------------------- raw memory
    # a block of bytes is an object with a length, a live flag and contents; pointers are (block, offset)
    MEMDATA = Sh('mem', [z3.ArraySort(Int, Int)])

    def mem(self, f, b, st=None):
        sh = {'len': SIZE, 'live': BOOL, 'data': self.MEMDATA}[f]
        X = self.X
        a = X.harr(('$mem', f), sh) if st is None else X.heap_at(st, ('$mem', f), sh)
        return X.sel(a[0], b)

    def mem_set(self, f, b, t):
        sh = {'len': SIZE, 'live': BOOL, 'data': self.MEMDATA}[f]
        self.X.hwrite('$mem', f, b, V(sh, [t]))

    def mem_access(self, p, n, what):
        """the n bytes from p are inside a live block"""
        X = self.X
        b, o = p.c
        if X.safety:
            X.check(what + ' stays inside a live block', z3.Implies(n > 0, z3.And(b != 0, self.mem('live', b), o >= 0, o + n <= self.mem('len', b))), tag='safety')

    def new_array(self, ty, n):
        X = self.X
        h = X.hooks.get('new_array')
        if h:
            return h(X, ty, n)
        if not (ty.k == 'int' and ty.w == 8):
            raise Unsupported('new[] of ' + ty.s)
        loc = X.alloc()
        X.assumptions.add('memory allocation succeeds')
        self.mem_set('len', loc, n.t)
        self.mem_set('live', loc, z3.BoolVal(True))
        return V(MPTR, [loc, z3.IntVal(0)])

    def delete(self, p, arr, ty):
        X = self.X
        h = X.hooks.get('delete')
        if h:
            return h(X, p, arr, ty)
        if isinstance(p, V) and p.s.k == 'mptr':
            b, o = p.c
            if X.branch(b == 0):
                return V(UNIT, [])
            X.check('delete[] frees a live block exactly once', z3.And(self.mem('live', b), o == 0), tag='safety')
            self.mem_set('live', b, z3.BoolVal(False))
            return V(UNIT, [])
        if isinstance(p, V) and p.s.k == 'ptr':
            return V(UNIT, [])
        raise Unsupported('delete')

    def mem_lv(self, p):
        h = self.X.hooks.get('mem_lv')
        if h:
            return h(self.X, p)
        return MemLV(p.c[0], z3.simplify(p.c[1]))

    def memcpy(self, d, s, n):
        X = self.X
        self.mem_access(d, n, 'memcpy destination')
        self.mem_access(s, n, 'memcpy source')
        old = self.mem('data', d.c[0])
        src = self.mem('data', s.c[0])
        new = X.fresh(z3.ArraySort(Int, Int), 'mem')
        i = z3.Const('i', Int)
        X.assume(z3.ForAll([i], z3.Select(new, i) == z3.If(z3.And(i >= d.c[1], i < d.c[1] + n), z3.Select(src, i - d.c[1] + s.c[1]), z3.Select(old, i)), patterns=[z3.Select(new, i)]))
        self.mem_set('data', d.c[0], new)


class MemLV(E.LV):
    """one byte of raw memory"""
    __slots__ = ('b', 'o', 's')

    def __init__(self, b, o):
        self.b, self.o, self.s = b, o, CHAR

    def key(self):
        return ('by', self.b.get_id(), self.o.get_id())


class PairOf(E.Special):
    """pair<iterator,bool>"""
    def __init__(self, it, b, X):
        E.Special.__init__(self, 'pair', (it, b))
        self.X = X


class CharLV(E.LV):
    __slots__ = ('src', 't', 'i', 's', 'X')

    def __init__(self, src, t, i, X):
        self.src, self.t, self.i, self.s, self.X = src, t, i, CHAR, X

    def key(self):
        return ('ch', self.src.key(), self.i.get_id())


def X_T(fr, e):
    return fr.tu.types[e['t']]
