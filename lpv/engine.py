"""Verification condition generator: a symbolic interpreter over the typed ASTs that
lpx extracts from /repo.  Calls to functions under contract are replaced by their
contract; loops are cut by inductive invariants; every proof obligation is collected
and later handed to the SMT back ends."""
import re
import z3, re, sys
from smt import *
from prog import strip_const

sys.setrecursionlimit(20000)


class Infeasible(Exception):
    pass


class CxxThrow(Exception):
    def __init__(self, typ, val=None):
        self.typ, self.val = typ, val


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


# ---------------------------------------------------------------- places
class LV:
    __slots__ = ()


class CellLV(LV):
    __slots__ = ('cid', 's')

    def __init__(self, cid, s):
        self.cid, self.s = cid, s

    def key(self):
        return ('c', self.cid)


class HeapLV(LV):
    __slots__ = ('cls', 'f', 'loc', 's')

    def __init__(self, cls, f, loc, s):
        self.cls, self.f, self.loc, self.s = cls, f, loc, s

    def key(self):
        return ('h', self.cls, self.f, self.loc.get_id())


class ObjLV(LV):
    __slots__ = ('loc', 'cls', 's')

    def __init__(self, loc, cls, s=None):
        self.loc, self.cls, self.s = loc, cls, s

    def key(self):
        return ('o', self.loc.get_id())


class SubLV(LV):
    """slice of the components of another place (struct field, half of a pair)"""
    __slots__ = ('b', 'o', 's', 'tag')

    def __init__(self, b, o, s, tag):
        self.b, self.o, self.s, self.tag = b, o, s, tag

    def key(self):
        return ('s', self.b.key(), self.tag)


class ElemLV(LV):
    __slots__ = ('b', 'i', 's')

    def __init__(self, b, i, s):
        self.b, self.i, self.s = b, i, s

    def key(self):
        return ('e', self.b.key(), self.i.get_id())


class MapLV(LV):
    __slots__ = ('b', 'k', 's')

    def __init__(self, b, k, s):
        self.b, self.k, self.s = b, k, s

    def key(self):
        return ('m', self.b.key(), self.k.get_id())


class EntryLV(LV):
    """*iterator of a map: pair<const K, V&>"""
    __slots__ = ('b', 'k', 's')

    def __init__(self, b, k, s):
        self.b, self.k, self.s = b, k, s

    def key(self):
        return ('me', self.b.key(), self.k.get_id())


# ------------------------------------------------- values that are not plain terms
class IterV:
    __slots__ = ('lv', 'i', 'ver', 'rev')

    def __init__(self, lv, i, ver, rev=False):
        self.lv, self.i, self.ver, self.rev = lv, i, ver, rev


class CStr:
    """char pointer to the beginning of NUL-terminated text with contents t"""
    __slots__ = ('t', 'null', 'off', 'src', 'cap')

    def __init__(self, t, null=None, src=None, cap=None):
        self.t, self.null, self.src, self.cap = t, null, src, cap


class AddrV:
    __slots__ = ('lv',)

    def __init__(self, lv):
        self.lv = lv


class LockV:
    __slots__ = ('m', 'owns')

    def __init__(self, m, owns):
        self.m, self.owns = m, owns


class FnRef:
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn


class IList:
    """initializer list: python list of values"""
    __slots__ = ('vs',)

    def __init__(self, vs):
        self.vs = vs


class Special:
    """library object with python-level state (random engine, manipulator, ...)"""
    __slots__ = ('kind', 'd')

    def __init__(self, kind, d=None):
        self.kind, self.d = kind, d


class DeadCell(Unsupported):
    """a local variable of a call that has ended"""


class Closure:
    __slots__ = ('fn', 'tu', 'vars', 'this', 'own')

    def __init__(self, fn, tu, vars, this, own=()):
        self.fn, self.tu, self.vars, self.this = fn, tu, vars, this
        self.own = own      # types of the captured copies


class Frame:
    __slots__ = ('tu', 'fn', 'this', 'vars', 'exc', 'scope')

    def __init__(self, tu, fn, this):
        self.tu, self.fn, self.this = tu, fn, this
        self.vars = {}
        self.exc = []
        self.scope = None


class State:
    def __init__(self):
        self.heap = {}
        self.cells = {}
        self.pc = []
        self.ghost = {}
        self.held = ()
        self.nxt = z3.IntVal(0)
        self.ctr = 0
        self.clos = {}
        self.cver = {}
        self.facts = set()
        self.old = set()
        self.loopd = 0     # number of loop havocs on this path
        self.trace = ()

    def copy(self):
        s = State.__new__(State)
        s.heap = dict(self.heap)
        s.cells = dict(self.cells)
        s.pc = list(self.pc)
        s.ghost = dict(self.ghost)
        s.held, s.nxt, s.ctr, s.loopd, s.trace = self.held, self.nxt, self.ctr, self.loopd, self.trace
        s.clos = dict(self.clos)
        s.cver = dict(self.cver)
        s.facts = set(self.facts)
        s.old = set(self.old)
        return s


class Oblig:
    __slots__ = ('name', 'pc', 'goal', 'loops', 'where', 'hints', 'tag')

    def __init__(self, name, pc, goal, loops, where, tag=None):
        self.name, self.pc, self.goal, self.loops, self.where, self.tag = name, pc, goal, loops, where, tag
        self.hints = []


_qcache = {}


def has_quant(t):
    i = t.get_id()
    r = _qcache.get(i)
    if r is None:
        if z3.is_quantifier(t):
            r = (True, t)
        else:
            r = (any(has_quant(c) for c in t.children()), t)
        _qcache[i] = r
    return r[0]


_ccache = {}


def max_ctr(t):
    """largest fresh-name counter occurring in the term"""
    i = t.get_id()
    r = _ccache.get(i)
    if r is None:
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = t.decl().name()
            p = n.rfind('!')
            m = int(n[p + 1:]) if p >= 0 and n[p + 1:].isdigit() else 0
        elif z3.is_quantifier(t):
            m = max_ctr(t.body())
        elif z3.is_var(t):
            m = 0
        else:
            m = max([max_ctr(c) for c in t.children()] or [0])
        r = (m, t)
        _ccache[i] = r
    return r[0]


def lin(t):
    """(base term or None, integer offset)"""
    if z3.is_int_value(t):
        return None, t.as_long()
    if z3.is_add(t) and t.num_args() == 2:
        a, b = t.arg(0), t.arg(1)
        if z3.is_int_value(a):
            return b, a.as_long()
        if z3.is_int_value(b):
            return a, b.as_long()
    return t, 0


class Engine:
    MAXPATHS = 4000

    def __init__(self, prog, strs=None, hooks=None, contracts=None, abstract=None, safety=True, ext=None):
        import lib
        self.prog = prog
        self.S = strs or StrZ3()
        self.STR = Sh('str', [self.S.sort])
        self.STREAM = Sh('stream', [self.S.sort, Int])
        self.hooks = hooks or {}
        self.contracts = contracts or []
        self.abstract = abstract or {}
        self.ext = ext or {}
        self.safety = safety
        self.lib = lib.Lib(self)
        self.obligs = []
        self.obkeys = set()
        self.quiet = 0
        self.rounds = []
        self.st = State()
        self.st.nxt = z3.Const('nxt0', Int)
        self.st.pc.append(self.st.nxt >= 1)
        self.oracle = None
        self.bounds = {}
        self.epochs, self.frames, self.lows = {}, {}, {}   # allocation limits, frames of havocked arrays, lower limits of new locations
        self.shapes = {}
        self.stack = []
        self.inlined = set()
        self.used_contracts = set()
        self.used_lib = set()
        self.assumptions = set()
        self.feas = {}
        self.loopcache = {}
        self.hsorts, self.hshape = {}, {}
        self.keep = []
        self.note = {}
        self.paths = []
        self.clsids = {n: i + 1 for i, n in enumerate(sorted(prog.recs))}
        self.invs = []
        self.solver_calls = 0
        self.loops = {}
        self.variants = {}
        self.measures = []
        self.where = ''
        self.keyat_f, self.idxof_f, self.card_f = {}, {}, {}

    # ------------------------------------------------------------ shapes
    def shape(self, ty):
        if ty.k == 'ref':
            ty = ty.to
        s = ty.s
        r = self.shapes.get(s)
        if r is None:
            r = self._shape(ty)
            self.shapes[s] = r
        return r

    def _shape(self, ty):
        k = ty.k
        if k == 'bool':
            return BOOL
        if k == 'int':
            return Sh('int', [Int], w=ty.w, sg=ty.sg, ty=ty)
        if k == 'enum':
            return Sh('int', [Int], w=32, sg=True, ty=ty)
        if k == 'float':
            return DBL
        if k == 'ptr':
            to = ty.to
            if to.k == 'fn':
                return FN
            if (to.k == 'int' and to.w == 8) or to.k == 'void':
                return MPTR
            return Sh('ptr', [Int], ty=to)
        if k == 'nullptr':
            return Sh('ptr', [Int])
        if k == 'void':
            return UNIT
        if k == 'lambda':
            return FN
        if k == 'fn':
            return FN
        if k == 'arr':
            if ty.to.k == 'int' and ty.to.w == 8:
                return self.STR
            return seq_shape(self.shape(ty.to))
        if k == 'rec':
            n = ty.n
            a = ty.args
            cn = strip_const(ty.s)
            if cn in self.abstract:
                return Sh('abs', [self.abstract[cn]], cls=cn)
            if n in ('std::basic_string', 'std::__cxx11::basic_string'):
                return self.STR
            if n in ('std::shared_ptr', 'std::unique_ptr', 'std::weak_ptr', 'std::__shared_ptr'):
                return Sh('ptr', [Int], ty=a[0])
            if n == 'std::function':
                return FN
            if n == 'std::atomic':
                return self.shape(a[0])
            if n in ('std::list', 'std::deque', 'std::vector', 'std::initializer_list'):
                return seq_shape(self.shape(a[0]))
            if n == 'std::array':
                return seq_shape(self.shape(a[0]))
            if n in ('std::map', 'std::unordered_map'):
                return map_shape(self.shape(a[0]), self.shape(a[1]))
            if n in ('std::set', 'std::unordered_set'):
                return map_shape(self.shape(a[0]), UNIT)
            if n == 'std::pair':
                return pair_shape(self.shape(a[0]), self.shape(a[1]))
            if n in ('std::chrono::duration', 'std::chrono::time_point'):
                return LONG
            if n == 'std::uniform_int_distribution':
                return pair_shape(self.shape(a[0]), self.shape(a[0]))
            if n == 'flatbuffers::Offset':
                return INT
            if n in ('std::basic_stringstream', 'std::basic_ostringstream', 'std::basic_ostream', 'std::basic_ofstream', 'std::basic_ifstream', 'std::basic_istream'):
                return self.STREAM
            if n in ('std::reference_wrapper',):
                return Sh('ptr', [Int], ty=a[0])
            rec = self.prog.recs.get(cn)
            if rec is not None and ty.user:
                return self.struct_shape(cn)
            if n in self.ext:
                return Sh('struct', sum([list(sh.sorts) for _, sh in self.ext[n]], []), cls=n, fields=[(n, f, sh) for f, sh in self.ext[n]])
            return Sh('unit', [], cls=n)
        return UNIT

    def struct_shape(self, cn):
        r = self.shapes.get('struct ' + cn)
        if r is None:
            fs = []
            for c in self.class_chain(cn):
                for f, t, _ in self.prog.recs[c].fields:
                    fs.append((c, f, self.shape(t)))
            r = Sh('struct', sum([list(x[2].sorts) for x in fs], []), cls=cn, fields=fs)
            self.shapes['struct ' + cn] = r
        return r

    def class_chain(self, cn):
        rec = self.prog.recs.get(cn)
        if rec is None:
            return []
        r = []
        for b in rec.bases:
            r += self.class_chain(strip_const(b.s))
        return r + [cn]

    def shape_s(self, s):
        """shape of a type given by its canonical string (must occur in the program)"""
        for tu in self.prog.tus:
            for t in tu.types:
                if t.s == s:
                    return self.shape(t)
        raise Unsupported('type %s does not occur' % s)

    # ------------------------------------------------------------ basics
    def fresh(self, sort, hint='v'):
        self.st.ctr += 1
        c = z3.Const('%s!%d' % (hint, self.st.ctr), sort)
        return c

    def assume(self, c):
        if isinstance(c, bool):
            c = z3.BoolVal(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise Infeasible()
        i = c.get_id()
        if i in self.st.facts:
            return
        self.st.facts.add(i)
        self.st.pc.append(c)

    def check(self, name, goal, tag=None):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if not self.quiet:
            key = (name, goal.get_id(), tuple(c.get_id() for c in self.st.pc))
            if key not in self.obkeys:
                self.obkeys.add(key)
                o = Oblig(name, list(self.st.pc), goal, self.st.loopd, self.where, tag)
                o.hints = list(self.note.items())
                self.obligs.append(o)
        self.assume(goal)

    def lemma(self, name, hyps, goal):
        """an obligation that must follow from the given facts alone; facts that are not known yet are obligations too"""
        ids = {c.get_id() for c in self.st.pc}
        for h in hyps:
            if h.get_id() not in ids:
                self.check(name + ', premise', h)
        if not self.quiet:
            key = (name, goal.get_id(), tuple(c.get_id() for c in hyps))
            if key not in self.obkeys:
                self.obkeys.add(key)
                o = Oblig(name, list(hyps), goal, self.st.loopd, self.where)
                o.hints = list(self.note.items())
                self.obligs.append(o)
        self.assume(goal)

    def newsym(self, shape, hint='v'):
        v = V(shape, [self.fresh(s, hint) for s in shape.sorts])
        self.bound_new(v)
        self.typed(v)
        return v

    def bound_new(self, v):
        for c in v.c:
            self.bounds[c.decl().name()] = self.st.nxt

    def leaves(self, t):
        """where the value of a pointer term comes from: allocation limits of the arrays it may be read from, and
        values stored on the way, arrays of unknown origin"""
        out, seen, stack = {}, set(), [t]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_select(x):
                stack.append(x.arg(0))
            elif z3.is_store(x):
                stack += [x.arg(0), x.arg(2)]
            elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
                stack += [x.arg(1), x.arg(2)]
            elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_CONST_ARRAY:
                stack.append(x.arg(0))
            elif z3.is_app(x) and x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in self.bounds:
                b = self.bounds[x.decl().name()]
                out[('<', b.get_id())] = b
            elif x.sort() == Int:
                out[('=', x.get_id())] = x
            else:
                out[('?', x.get_id())] = x
        return out

    def bounded(self, t):
        """a pointer term is below the allocation limit it was stored under"""
        ls = self.leaves(t)
        if ('=', t.get_id()) in ls or any(k == '?' for k, _ in ls):
            return False
        if len(ls) > 12:
            self.assume(z3.And(t >= 0, t < self.st.nxt))
            return True
        ors, old = [], True
        for (k, _), b in sorted(ls.items(), key=lambda x: x[0]):
            if k == '<':
                ors.append(t < b)
                old = old and z3.is_const(b) and b.decl().name() == 'nxt0'
            elif not (z3.is_int_value(b) and b.as_long() == 0 and len(ls) > 1):
                ors.append(t == b)
                old = old and b.get_id() in self.st.old
        self.assume(z3.And(t >= 0, z3.Or(ors) if len(ors) > 1 else ors[0]))
        if old:
            self.st.old.add(t.get_id())
            self.keep.append(t)
        return True

    def typed(self, v, deep=True):
        """facts that the C++ type guarantees for a value that was just read or made up"""
        s = v.s
        k = s.k
        if k == 'int':
            t = v.t
            if z3.is_int_value(t):
                return
            if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT):
                lo, hi = self.rng(s)
                self.assume(z3.And(t >= lo, t <= hi))
        elif k == 'ptr':
            t = v.t
            if z3.is_int_value(t):
                return
            self.bounded(t)
        elif k == 'seq':
            if not z3.is_int_value(v.t):
                self.assume(z3.And(v.t >= 0, v.t <= 1 << 62))
        elif k == 'str':
            for f in self.S.facts(v.t):
                self.assume(f)
        elif k == 'fn':
            t = v.t
            if not z3.is_int_value(t):
                ls = self.leaves(t)
                made = set(self.st.clos)
                if all(q == '=' or b.decl().name() == 'nxt0' for (q, _), b in ls.items()):
                    made = {b.as_long() for (q, _), b in ls.items() if q == '=' and z3.is_int_value(b)}
                self.assume(z3.Or([t <= 0] + [t == b for b in sorted(made) if b > 0]))
        elif k == 'pair':
            self.typed(V(s.a, v.c[:s.a.n]))
            self.typed(V(s.b, v.c[s.a.n:]))
        elif k == 'struct' and deep:
            for (o, fs) in s.offs.values():
                self.typed(V(fs, v.c[o:o + fs.n]))
        elif k == 'map':
            self.assume(self.card(v.c[0]) >= 0)
        elif k == 'mptr':
            if self.bounded(v.t):
                self.assume(v.c[1] >= 0)

    @staticmethod
    def rng(s):
        if s.ty is not None and s.ty.k == 'enum':
            return -(1 << 31), (1 << 31) - 1
        if s.sg:
            return -(1 << (s.w - 1)), (1 << (s.w - 1)) - 1
        return 0, (1 << s.w) - 1

    # ------------------------------------------------------------ maps
    def _mf(self, ks):
        n = ks.name() if hasattr(ks, 'name') else str(ks)
        n = str(ks)
        if n not in self.card_f:
            D = z3.ArraySort(ks, Bool)
            self.card_f[n] = z3.Function('card:' + n, D, Int)
            self.keyat_f[n] = z3.Function('keyat:' + n, D, Int, ks)
            self.idxof_f[n] = z3.Function('idxof:' + n, D, ks, Int)
        return self.card_f[n], self.keyat_f[n], self.idxof_f[n]

    def card(self, dom):
        return self._mf(dom.sort().domain())[0](dom)

    def keyat(self, dom, i):
        return self._mf(dom.sort().domain())[1](dom, i)

    def idxof(self, dom, k):
        return self._mf(dom.sort().domain())[2](dom, k)

    def map_axioms(self, dom):
        """enumeration of a finite map's keys: a bijection between [0,card) and the domain"""
        i = z3.Const('i', Int)
        k = z3.Const('k', dom.sort().domain())
        c, ka, ix = self._mf(dom.sort().domain())
        self.assume(c(dom) >= 0)
        self.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < c(dom)), z3.And(z3.Select(dom, ka(dom, i)), ix(dom, ka(dom, i)) == i)), patterns=[ka(dom, i)]))
        self.assume(z3.ForAll([k], z3.Implies(z3.Select(dom, k), z3.And(ix(dom, k) >= 0, ix(dom, k) < c(dom), ka(dom, ix(dom, k)) == k)), patterns=[ix(dom, k)]))

    def map_index(self, dom, k):
        """make the index of key k known to the solver"""
        c, ka, ix = self._mf(dom.sort().domain())
        self.assume(z3.Implies(z3.Select(dom, k), z3.And(ix(dom, k) >= 0, ix(dom, k) < c(dom), ka(dom, ix(dom, k)) == k)))

    def map_store(self, dom, k, b):
        new = z3.Store(dom, k, z3.BoolVal(b))
        had = self.sel(dom, k)
        if b:
            self.assume(self.card(new) == self.card(dom) + z3.If(had, 0, 1))
        else:
            self.assume(self.card(new) == self.card(dom) - z3.If(had, 1, 0))
        self.assume(self.card(new) >= 0)
        return new

    def map_empty(self, s):
        dom = z3.K(s.a.sorts[0], z3.BoolVal(False))
        self.assume(self.card(dom) == 0)
        return V(s, [dom] + [self.fresh(x, 'mv') for x in s.sorts[1:]])

    def seq_empty(self, s):
        return V(s, [z3.IntVal(0)] + [self.fresh(x, 'sq') for x in s.sorts[1:]])

    # ------------------------------------------------------------ heap
    def sel(self, a, i):
        while True:
            if z3.is_store(a):
                j = a.arg(1)
                if j.eq(i):
                    return a.arg(2)
                if self.distinct(i, j):
                    a = a.arg(0)
                    continue
                break
            fr = self.frames.get(a.decl().name()) if self.frames and z3.is_const(a) else None
            if fr is not None and self.below(i, fr[1]):
                a = fr[0]
                continue
            break
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_CONST_ARRAY:
            return a.arg(0)
        return z3.Select(a, i)

    def le(self, i, j, d=0):
        """i + d <= j, both offsets from allocation limits (syntactic, False when unknown)"""
        bi, oi = lin(i)
        bj, oj = lin(j)
        oi += d
        while True:
            if bi is None or bj is None:
                return bi is None and bj is None and oi <= oj
            if bi.eq(bj):
                return oi <= oj
            if oj < 0 or not z3.is_const(bj) or bj.decl().name() not in self.epochs:
                return False
            bj, oj = lin(self.epochs[bj.decl().name()])

    def below(self, i, n):
        """location i is certainly less than the allocation limit n"""
        if i.get_id() in self.st.old:
            return self.le(z3.Const('nxt0', Int), n)
        b = self.bounds.get(i.decl().name()) if z3.is_const(i) else None
        if b is not None:
            return self.le(b, n)
        return self.le(i, n, 1)

    def distinct(self, i, j):
        if z3.is_int(i):
            bi, oi = lin(i)
            bj, oj = lin(j)
            if bi is None and bj is None:
                return oi != oj
            if bi is not None and bj is not None and bi.eq(bj):
                return oi != oj
            n0 = lambda b, o: b is not None and z3.is_const(b) and b.decl().name() == 'nxt0' and o >= 0
            if i.get_id() in self.st.old and n0(bj, oj):
                return True
            if j.get_id() in self.st.old and n0(bi, oi):
                return True
            if self.epochs:
                lim = lambda x: (self.lows.get(x.decl().name()) if z3.is_const(x) else None)
                for x, y in ((i, j), (j, i)):
                    n = lim(x)
                    if n is None and lin(x)[0] is not None and z3.is_const(lin(x)[0]) and (lin(x)[0].decl().name() in self.epochs or lin(x)[0].decl().name() == 'nxt0'):
                        n = x
                    if n is not None and self.below(y, n):
                        return True
            return False
        if z3.is_string_value(i) and z3.is_string_value(j):
            return not i.eq(j)
        if i.sort().eq(OStr) and not i.eq(j):
            return self.S.is_lit(i) and self.S.is_lit(j)
        return False

    def harr(self, key, shape):
        """arrays (one per component) of a field"""
        a = self.st.heap.get(key)
        if a is None:
            a = []
            self.hsorts[key] = [z3.ArraySort(Int, s) for s in shape.sorts]
            self.hshape[key] = shape
            for n, s in enumerate(shape.sorts):
                nm = 'H:%s.%s:%d' % (key[0], key[1], n)
                self.bounds.setdefault(nm, z3.Const('nxt0', Int))
                a.append(z3.Const(nm, z3.ArraySort(Int, s)))
            a = tuple(a)
            self.st.heap[key] = a
        return a

    ghosting = 0

    def hread(self, cls, f, loc, shape):
        h = self.hooks.get('access')
        if h and not self.ghosting:
            h(self, (cls, f), loc, 'read')
        v = V(shape, [self.sel(a, loc) for a in self.harr((cls, f), shape)])
        self.typed(v)
        return v

    def hwrite(self, cls, f, loc, v):
        h = self.hooks.get('access')
        if h and not self.ghosting:
            h(self, (cls, f), loc, 'write')
        a = self.harr((cls, f), v.s)
        self.st.heap[(cls, f)] = tuple(z3.Store(x, loc, t) for x, t in zip(a, v.c))

    def heap_at(self, st, key, shape):
        a = st.heap.get(key)
        if a is None:
            a = tuple(z3.Const('H:%s.%s:%d' % (key[0], key[1], n), z3.ArraySort(Int, s)) for n, s in enumerate(shape.sorts))
        return a

    def heap_at_raw(self, st, key, like=None):
        a = st.heap.get(key)
        if a is None:
            src = like if like is not None else self.hsorts[key]
            a = tuple(z3.Const('H:%s.%s:%d' % (key[0], key[1], n), x.sort() if z3.is_expr(x) else x) for n, x in enumerate(src))
        return a

    def heap_shape(self, key):
        return self.hshape.get(key)

    def alloc(self, cls=None):
        loc = self.st.nxt
        self.st.nxt = z3.simplify(loc + 1)
        if cls is not None:
            self.hwrite('$', 'dyn', loc, V(INT, [z3.IntVal(self.clsids.get(cls, 0))]))
        return loc

    def dyn(self, loc):
        return self.sel(self.harr(('$', 'dyn'), INT)[0], loc)

    def isdyn(self, loc, cls):
        subs = self.prog.subclasses(cls) or [cls]
        d = self.dyn(loc)
        return z3.simplify(z3.Or([d == self.clsids.get(c, 0) for c in subs]))

    # ------------------------------------------------------------ places
    def read(self, lv):
        if isinstance(lv, CellLV):
            v = self.st.cells.get(lv.cid)
            if v is None:
                raise DeadCell('read of dead cell %s' % (lv.cid,))
            return v
        if isinstance(lv, HeapLV):
            return self.hread(lv.cls, lv.f, lv.loc, lv.s)
        if isinstance(lv, ObjLV):
            s = self.struct_shape(lv.cls)
            c = []
            for (cl, f, fs) in s.fields:
                c += self.hread(cl, f, lv.loc, fs).c
            return V(s, c)
        if isinstance(lv, SubLV):
            b = self.read(lv.b)
            if not isinstance(b, V):
                raise Unsupported('field of special value')
            v = V(lv.s, b.c[lv.o:lv.o + lv.s.n])
            self.typed(v)
            return v
        if isinstance(lv, ElemLV):
            b = self.read(lv.b)
            v = V(lv.s, [self.sel(a, lv.i) for a in b.c[1:]])
            self.typed(v)
            return v
        if isinstance(lv, MapLV):
            b = self.read(lv.b)
            v = V(lv.s, [self.sel(a, lv.k) for a in b.c[1:]])
            self.typed(v)
            return v
        if isinstance(lv, EntryLV):
            b = self.read(lv.b)
            v = V(lv.s, [lv.k] + [self.sel(a, lv.k) for a in b.c[1:]])
            self.typed(v)
            return v
        if type(lv).__name__ == 'MemLV':
            self.lib.mem_access(V(MPTR, [lv.b, lv.o]), z3.IntVal(1), 'byte read')
            v = V(lv.s, [self.sel(self.lib.mem('data', lv.b), lv.o)])
            self.typed(v)
            return v
        if type(lv).__name__ == 'CharLV':
            t = self.read(lv.src).t
            return V(lv.s, [self.lib.charval(t, lv.i)])
        raise Unsupported('read %s' % lv)

    def write(self, lv, v):
        if isinstance(lv, CellLV):
            self.st.cells[lv.cid] = v
            return
        if not isinstance(v, V):
            v = self.tov(v, lv.s)
        if isinstance(lv, HeapLV):
            self.hwrite(lv.cls, lv.f, lv.loc, v)
        elif isinstance(lv, ObjLV):
            s = self.struct_shape(lv.cls)
            o = 0
            for (cl, f, fs) in s.fields:
                self.hwrite(cl, f, lv.loc, V(fs, v.c[o:o + fs.n]))
                o += fs.n
        elif isinstance(lv, SubLV):
            b = self.read(lv.b)
            self.write(lv.b, V(b.s, b.c[:lv.o] + v.c + b.c[lv.o + lv.s.n:]))
        elif isinstance(lv, ElemLV):
            b = self.read(lv.b)
            self.write(lv.b, V(b.s, (b.c[0],) + tuple(z3.Store(a, lv.i, t) for a, t in zip(b.c[1:], v.c))))
        elif isinstance(lv, MapLV):
            b = self.read(lv.b)
            self.write(lv.b, V(b.s, (b.c[0],) + tuple(z3.Store(a, lv.k, t) for a, t in zip(b.c[1:], v.c))))
        elif type(lv).__name__ == 'MemLV':
            self.lib.mem_access(V(MPTR, [lv.b, lv.o]), z3.IntVal(1), 'byte write')
            self.lib.mem_set('data', lv.b, z3.Store(self.lib.mem('data', lv.b), lv.o, v.t))
        elif type(lv).__name__ == 'CharLV':
            t = self.read(lv.src).t
            S = self.S
            n = S.len(t)
            self.write(lv.src, V(self.STR, [S.concat(S.concat(S.substr(t, z3.IntVal(0), lv.i), S.fromchar(v.t)), S.substr(t, lv.i + 1, n - lv.i - 1))]))
        else:
            raise Unsupported('write %s' % lv)

    def tov(self, v, shape):
        """turn a special value into terms of the given shape"""
        if isinstance(v, V):
            return v
        if isinstance(v, FnRef) and shape.k == 'fn':
            return self.closure_of_fn(v.fn)
        if isinstance(v, CStr) and shape.k == 'str':
            return V(self.STR, [v.t])
        if isinstance(v, IterV) or isinstance(v, AddrV) or isinstance(v, LockV):
            raise Unsupported('special value %s stored in %s' % (type(v).__name__, shape))
        raise Unsupported('value %s in %s' % (type(v).__name__, shape))

    def closure_of_fn(self, fn):
        self.st.ctr += 1
        cid = self.st.ctr
        self.st.clos[cid] = Closure(fn, fn.tu, {}, None)
        return V(FN, [z3.IntVal(cid)])

    def cell(self, v, s=None):
        self.st.ctr += 1
        cid = self.st.ctr
        self.st.cells[cid] = v
        return CellLV(cid, s if s is not None else (v.s if isinstance(v, V) else UNIT))

    def val(self, x):
        return self.read(x) if isinstance(x, LV) else x

    def place(self, x):
        return x if isinstance(x, LV) else self.cell(x)

    def field(self, lv, cls, f, s):
        if isinstance(lv, CellLV):
            cv = self.st.cells.get(lv.cid)
            if isinstance(cv, Special) and cv.kind == 'pair':
                return self.cell(cv.d[0 if f == 'first' else 1])
        if isinstance(lv, ObjLV):
            return HeapLV(cls, f, lv.loc, s)
        sh = lv.s
        if sh.k == 'pair':
            if f == 'first':
                if isinstance(lv, EntryLV):
                    return self.cell(V(sh.a, [lv.k]))
                return SubLV(lv, 0, sh.a, 'first')
            if isinstance(lv, EntryLV):
                return MapLV(lv.b, lv.k, sh.b)
            return SubLV(lv, sh.a.n, sh.b, 'second')
        if sh.k == 'struct':
            if (cls, f) in sh.offs:
                o, fs = sh.offs[(cls, f)]
                return SubLV(lv, o, fs, (cls, f))
        raise Unsupported('field %s.%s of %s' % (cls, f, sh))

    # ------------------------------------------------------------ branching
    def feasible(self, extra):
        pcs = [c for c in self.st.pc if not has_quant(c)]
        if has_quant(extra):
            return True
        key = (tuple(c.get_id() for c in pcs), extra.get_id())
        r = self.feas.get(key)
        if r is None:
            s = z3.Solver()
            s.set('timeout', 1000)
            s.add(*pcs)
            s.add(extra)
            self.solver_calls += 1
            r = s.check() != z3.unsat
            self.feas[key] = r
            self.keep.append((pcs, extra))
        return r

    def entails(self, goal, timeout=1500, pc=None):
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(*(self.st.pc if pc is None else pc))
        s.add(z3.Not(goal))
        if self.S.name == 'opaque':
            s.add(*self.S.litfacts())
        self.solver_calls += 1
        return s.check() == z3.unsat

    def choose(self, conds):
        """fork: exactly one of the conditions (None = always possible) is taken on this path"""
        o = self.oracle
        if o is None:
            raise Unsupported('fork outside exploration')
        if o.pos < len(o.prefix):
            i = o.prefix[o.pos]
            o.pos += 1
        else:
            ok = [i for i, c in enumerate(conds) if c is None or self.feasible(c)]
            if not ok:
                raise Infeasible()
            for j in reversed(ok[1:]):
                o.pending.append(o.prefix[:] + [j])
            i = ok[0]
            o.prefix.append(i)
            o.pos += 1
        if conds[i] is not None:
            self.assume(conds[i])
        return i

    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        n = z3.simplify(z3.Not(c))
        if c.get_id() in self.st.facts:
            return True
        if n.get_id() in self.st.facts:
            return False
        return self.choose([c, n]) == 0

    class Oracle:
        __slots__ = ('prefix', 'pos', 'pending')

        def __init__(self, prefix, pending):
            self.prefix, self.pos, self.pending = prefix, 0, pending

    def explore(self, thunk, state=None):
        st0 = (state or self.st)
        saved = (self.st, self.oracle, list(self.stack))
        pending = [[]]
        res = []
        n = 0
        while pending:
            pre = pending.pop()
            n += 1
            if n > self.MAXPATHS:
                self.st, self.oracle, self.stack = saved
                raise Unsupported('too many paths')
            self.st = st0.copy()
            self.stack = list(saved[2])
            self.oracle = Engine.Oracle(list(pre), pending)
            try:
                try:
                    out = ('ok', thunk())
                except CxxThrow as e:
                    out = ('throw', e)
                except Ret as e:
                    out = ('ret', e.v)
                except Brk:
                    out = ('brk', None)
                except Cont:
                    out = ('cont', None)
                except Infeasible:
                    continue
            except Unsupported:
                self.st, self.oracle, self.stack = saved
                raise
            res.append((self.st, out))
        self.st, self.oracle, self.stack = saved
        return res

    # ------------------------------------------------------------ expressions
    def T(self, fr, e):
        return fr.tu.types[e['t']]

    def ev(self, fr, e):
        if e is None:
            return None
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expression %s%s at %s:%s' % (k, ' ' + e.get('what', '') if k == 'unsup' else '', fr.fn.loc if fr.fn else '?', e.get('l')))
        return m(fr, e)

    def rv(self, fr, e):
        """evaluate and read"""
        return self.val(self.ev(fr, e))

    def e_int(self, fr, e):
        ty = self.T(fr, e)
        v = int(e['vs']) if 'vs' in e else e['v']
        if ty.k == 'bool':
            return V(BOOL, [z3.BoolVal(bool(v))])
        return V(self.shape(ty), [z3.IntVal(v)])

    def e_bool(self, fr, e):
        return V(BOOL, [z3.BoolVal(e['v'])])

    def dlit(self, x):
        f = float(x)
        return z3.Const('dbl:%r' % f, Dbl)

    def single(self, t):
        """rounding to single precision: an arbitrary function, the identity on what has been rounded before"""
        f = z3.Function('dbl.single', Dbl, Dbl)
        if z3.is_app(t) and t.decl().eq(f):
            return t
        r = f(t)
        self.assume(f(r) == r)
        return r

    def e_float(self, fr, e):
        return V(DBL, [self.dlit(e['v'])])

    def e_str(self, fr, e):
        return self.cell(V(self.STR, [self.S.lit(e['v'])]))

    def e_null(self, fr, e):
        return V(Sh('ptr', [Int]), [z3.IntVal(0)])

    def e_fref(self, fr, e):
        return FnRef(fr.tu.fns[e['fn']])

    def e_this(self, fr, e):
        if fr.this is None:
            raise Unsupported('this without object')
        if isinstance(fr.this, ObjLV):
            return V(Sh('ptr', [Int], ty=self.T(fr, e).to), [fr.this.loc])
        return AddrV(fr.this)

    def e_ref(self, fr, e):
        lv = fr.vars.get(e['d'])
        if lv is not None:
            return lv
        if 'ginit' in e:
            v = self.rv(fr, e['ginit'])
            return self.cell(v)
        if 'global' in e:
            g = e['global']
            cid = ('g', g)
            if cid not in self.st.cells and 'gdef' in e and self.hooks.get('initial statics'):
                v = self.rv(fr, e['gdef'])
                self.st.cells[cid] = v
            if cid not in self.st.cells:
                self.st.cells[cid] = self.lib.global_init(g, self.T(fr, e))
            return CellLV(cid, self.shape(self.T(fr, e)))
        cid = ('s', fr.tu.name, e['d'])
        if cid in self.st.cells:
            return CellLV(cid, self.shape(self.T(fr, e)))
        raise Unsupported('unbound variable %s in %s' % (e.get('n'), fr.fn and fr.fn.key))

    def e_mem(self, fr, e):
        b = self.ev(fr, e['b'])
        s = self.shape(self.T(fr, e))
        cls = strip_const(e['cls'])
        ty = self.T(fr, e)
        if e.get('arrow'):
            lv = self.deref(b, self.T(fr, e['b']), fr)
        else:
            if not isinstance(b, LV):
                b = self.cell(b)
            lv = b
        r = self.field(lv, cls, e['n'], s)
        return r

    def deref(self, p, pty, fr=None):
        p = self.val(p) if isinstance(p, LV) else p
        if isinstance(p, AddrV):
            return p.lv
        if isinstance(p, IterV):
            return self.lib.iter_deref(p)
        if isinstance(p, CStr):
            if p.src is not None:
                return p.src
            return self.cell(V(Sh('int', [Int], w=8, sg=True), [self.S.char(p.t, z3.IntVal(0))]))
        if isinstance(p, V) and p.s.k == 'mptr':
            return self.lib.mem_lv(p)
        if isinstance(p, V) and p.s.k == 'ptr':
            to = None
            if pty is not None:
                if pty.k == 'ref':
                    pty = pty.to
                if pty.k == 'ptr':
                    to = pty.to
                elif pty.k == 'rec' and pty.args:
                    to = pty.args[0]
            if to is None:
                to = p.s.ty
            self.nonnull(p.t, to)
            return self.objlv(p.t, to)
        raise Unsupported('dereference of %r' % (p,))

    def objlv(self, loc, to):
        cn = strip_const(to.s)
        if cn in self.abstract:
            return HeapLV('$box ' + cn, 'v', loc, self.shape(to))
        if to.k == 'rec' and ((to.user and cn in self.prog.recs) or to.n in self.ext):
            return ObjLV(loc, cn if to.user else to.n, self.shape(to))
        if to.k == 'rec' and to.user:
            return ObjLV(loc, cn, self.shape(to))
        return HeapLV('$box ' + cn, 'v', loc, self.shape(to))

    def nonnull(self, loc, to=None):
        b, o = lin(loc)
        if b is not None and z3.is_const(b) and b.decl().name() == 'nxt0' and o >= 0:
            return
        if z3.is_int_value(loc) and loc.as_long() != 0:
            return
        c = loc != 0
        if c.get_id() in self.st.facts:
            return
        if self.safety:
            self.check('no null dereference', c, tag='safety')
        else:
            self.assumptions.add('pointers that the code dereferences are not null')
            self.assume(c)

    def e_mtemp(self, fr, e):
        v = self.ev_new(fr, e['e'])
        if isinstance(v, LV):
            return v
        return self.cell(v, self.shape(self.T(fr, e)))

    def e_default(self, fr, e):
        return self.ev(fr, e['e'])

    def ev_new(self, fr, e):
        """evaluate a prvalue; class values come back as a place holding the new object"""
        s = self.shape(self.T(fr, e))
        if s.k == 'struct' and not e.get('lv'):
            lv = self.cell(self.undef(s), s)
            self.init(fr, lv, e)
            return lv
        return self.ev(fr, e)

    def undef(self, s):
        return V(s, [self.fresh(x, 'u') for x in s.sorts])

    def init(self, fr, lv, e):
        """initialise the place lv with the expression e"""
        k = e['k']
        s = lv.s
        if s is not None and s.k == 'struct':
            if k == 'construct':
                fn = fr.tu.fns[e['fn']]
                args = e['args']
                if (fn.js.get('copyctor') or fn.js.get('movector')) and e.get('elide') and len(args) == 1 and args[0]['k'] == 'mtemp':
                    return self.init(fr, lv, args[0]['e'])
                a = self.args(fr, fn, args)
                self.call_ctor(fn, lv, a)
                return
            if k == 'ilist':
                self.init_list(fr, lv, e)
                return
            if k == 'cast':
                if e['e'].get('lv'):
                    self.write(lv, self.val(self.ev(fr, e)))
                    return
                return self.init(fr, lv, e['e'])
            if k == 'default' or k == 'mtemp':
                return self.init(fr, lv, e['e'])
            if k == 'zero':
                self.write(lv, self.zero(s))
                return
            if k == 'cond':
                c = self.rv(fr, e['c'])
                return self.init(fr, lv, e['a'] if self.branch(c.t) else e['b'])
        v = self.val(self.ev(fr, e))
        self.write(lv, v if isinstance(lv, CellLV) and not isinstance(v, V) else self.coerce(v, s))

    def coerce(self, v, s):
        if isinstance(v, V) and s is not None and v.s.k == s.k == 'ptr':
            return V(s, v.c)
        if isinstance(v, V) and s is not None and s.k == 'mptr' and v.s.k == 'ptr':
            return V(s, [v.t, z3.IntVal(0)])
        if isinstance(v, V) and s is not None and v.s.k == 'int' and s.k == 'int':
            return V(s, v.c)
        return v if isinstance(v, V) or s is None else self.tov2(v, s)

    def tov2(self, v, s):
        try:
            return self.tov(v, s)
        except Unsupported:
            return v

    def init_list(self, fr, lv, e):
        s = lv.s if not isinstance(lv, ObjLV) else self.struct_shape(lv.cls)
        self.write(lv, self.zero(s))
        i = 0
        for (cl, f, fs) in s.fields:
            if i >= len(e['args']):
                break
            self.init(fr, self.field(lv, cl, f, fs), e['args'][i])
            i += 1

    def zero(self, s):
        if s.k == 'int' or s.k in ('ptr', 'fn', 'mptr'):
            return V(s, [z3.IntVal(0)] * s.n)
        if s.k == 'bool':
            return V(s, [z3.BoolVal(False)])
        if s.k == 'dbl':
            return V(s, [self.dlit(0.0)])
        if s.k == 'str':
            return V(s, [self.S.lit([])])
        if s.k == 'stream':
            return V(s, [self.S.lit([]), z3.IntVal(0)])
        if s.k == 'seq':
            return self.seq_empty(s)
        if s.k == 'map':
            return self.map_empty(s)
        if s.k == 'pair':
            return V(s, self.zero(s.a).c + self.zero(s.b).c)
        if s.k == 'struct':
            c = ()
            for (_, _, fs) in s.fields:
                c += self.zero(fs).c
            return V(s, c)
        if s.k == 'unit':
            return V(s, [])
        raise Unsupported('zero of %s' % s)

    def e_zero(self, fr, e):
        return self.zero(self.shape(self.T(fr, e)))

    def e_ilist(self, fr, e):
        ty = self.T(fr, e)
        if ty.k == 'arr':
            s = self.shape(ty)
            if s.k == 'str':
                return V(s, [self.S.lit([])]) if not e['args'] else self.undef(s)
            vs = [self.val(self.ev(fr, a)) for a in e['args']]
            if s.k == 'seq':
                if not all(isinstance(v, V) for v in vs):
                    return IList(vs)
                out = self.seq_empty(s)
                arrs = list(out.c[1:])
                for i, v in enumerate(vs):
                    arrs = [z3.Store(a, z3.IntVal(i), t) for a, t in zip(arrs, v.c)]
                n = ty.len if ty.len else len(vs)
                for i in range(len(vs), min(n, 64)):
                    arrs = [z3.Store(a, z3.IntVal(i), t) for a, t in zip(arrs, self.zero(s.a).c)]
                return V(s, [z3.IntVal(n)] + arrs)
        s = self.shape(ty)
        if s.k == 'struct':
            lv = self.cell(self.undef(s), s)
            self.init_list(fr, lv, e)
            return self.read(lv)
        if len(e['args']) == 1:
            return self.ev(fr, e['args'][0])
        if not e['args']:
            return self.zero(s)
        raise Unsupported('init list of %s' % ty.s)

    def e_stdilist(self, fr, e):
        v = self.val(self.ev(fr, e['e']))
        return v

    def e_cond(self, fr, e):
        c = self.rv(fr, e['c'])
        return self.ev(fr, e['a'] if self.branch(c.t) else e['b'])

    def e_un(self, fr, e):
        op = e['op']
        if op == '!':
            return V(BOOL, [z3.simplify(z3.Not(self.rv(fr, e['e']).t))])
        if op == '&':
            x = self.ev(fr, e['e'])
            if isinstance(x, FnRef):
                return x
            if isinstance(x, ObjLV):
                return V(Sh('ptr', [Int], ty=self.T(fr, e).to), [x.loc])
            if type(x).__name__ == 'MemLV':
                return V(MPTR, [x.b, x.o])
            return AddrV(x)
        if op == '*':
            return self.deref(self.ev(fr, e['e']), self.T(fr, e['e']))
        if op in ('++', '--'):
            lv = self.ev(fr, e['e'])
            old = self.read(lv)
            d = 1 if op == '++' else -1
            if isinstance(old, V) and old.s.k == 'mptr':
                new = V(old.s, [old.c[0], z3.simplify(old.c[1] + d)])
            elif isinstance(old, V) and old.s.k == 'int':
                new = V(old.s, [self.wrap(old.t + d, self.shape(self.T(fr, e['e'])), add=True)])
            elif isinstance(old, IterV):
                new = IterV(old.lv, z3.simplify(old.i + d), old.ver, old.rev)
            else:
                raise Unsupported('++ on %r' % (old,))
            self.write(lv, new)
            return old if e.get('post') else lv
        v = self.rv(fr, e['e'])
        if op == '-':
            if v.s.k == 'dbl':
                return V(DBL, [self.duf('neg', v.t)])
            return V(v.s, [self.wrap(-v.t, v.s)])
        if op == '+':
            return v
        if op == '~':
            s = self.shape(self.T(fr, e))
            if s.sg:
                return V(s, [-v.t - 1])
            return V(s, [((1 << s.w) - 1) - v.t])
        if op == '__extension__':
            return v
        raise Unsupported('unary ' + op)

    def duf(self, name, *a):
        f = z3.Function('dbl.' + name, *([x.sort() for x in a] + [Dbl]))
        return f(*a)

    def dpred(self, name, a, b):
        if name in ('==', '!='):
            eq = z3.Function('dbl.eq', Dbl, Dbl, Bool)(a, b)
            self.assume(eq == z3.Function('dbl.eq', Dbl, Dbl, Bool)(b, a))
            return eq if name == '==' else z3.Not(eq)
        lt = z3.Function('dbl.lt', Dbl, Dbl, Bool)
        return {'<': lt(a, b), '>': lt(b, a), '<=': z3.Function('dbl.le', Dbl, Dbl, Bool)(a, b), '>=': z3.Function('dbl.le', Dbl, Dbl, Bool)(b, a)}[name]

    def wrap(self, t, s, add=False):
        t = z3.simplify(t)
        if s.k != 'int':
            return t
        if s.ty is not None and s.ty.k == 'enum':
            return t
        m = 1 << s.w
        if s.sg:
            if z3.is_int_value(t):
                return t
            self.assumptions.add('signed integer arithmetic does not overflow')
            return t
        if z3.is_int_value(t):
            return z3.IntVal(t.as_long() % m)
        if add:
            return z3.If(t >= m, t - m, z3.If(t < 0, t + m, t))
        return t % m

    def e_bin(self, fr, e):
        op = e['op']
        if op == '&&':
            a = self.rv(fr, e['a'])
            if not self.branch(a.t):
                return V(BOOL, [z3.BoolVal(False)])
            return self.rv(fr, e['b'])
        if op == '||':
            a = self.rv(fr, e['a'])
            if self.branch(a.t):
                return V(BOOL, [z3.BoolVal(True)])
            return self.rv(fr, e['b'])
        if op == ',':
            self.ev(fr, e['a'])
            return self.ev(fr, e['b'])
        a = self.rv(fr, e['a'])
        b = self.rv(fr, e['b'])
        return self.binop(op, a, b, self.shape(self.T(fr, e)))

    def binop(self, op, a, b, s):
        if op in ('==', '!='):
            r = self.lib.equal(a, b)
            return V(BOOL, [z3.simplify(r if op == '==' else z3.Not(r))])
        if isinstance(a, V) and a.s.k == 'dbl':
            if op in ('<', '>', '<=', '>='):
                return V(BOOL, [self.dpred(op, a.t, b.t)])
            return V(DBL, [self.duf({'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}[op], a.t, b.t)])
        if isinstance(a, V) and a.s.k == 'mptr' and isinstance(b, V) and b.s.k == 'int':
            return V(a.s, [a.c[0], z3.simplify(a.c[1] + b.t if op == '+' else a.c[1] - b.t)])
        if isinstance(a, V) and a.s.k == 'int' and isinstance(b, V) and b.s.k == 'mptr' and op == '+':
            return V(b.s, [b.c[0], z3.simplify(b.c[1] + a.t)])
        if isinstance(a, V) and a.s.k == 'mptr' and isinstance(b, V) and b.s.k == 'mptr':
            if op == '-':
                return V(s, [a.c[1] - b.c[1]])
            return V(BOOL, [{'<': a.c[1] < b.c[1], '>': a.c[1] > b.c[1], '<=': a.c[1] <= b.c[1], '>=': a.c[1] >= b.c[1]}[op]])
        if isinstance(a, IterV) or isinstance(b, IterV):
            return self.lib.iter_arith(op, a, b)
        if isinstance(a, CStr) and isinstance(b, V) and op == '+':
            n = self.S.len(a.t)
            return CStr(self.S.substr(a.t, b.t, n - b.t))
        if not (isinstance(a, V) and isinstance(b, V) and a.s.k in ('int', 'bool') and b.s.k in ('int', 'bool')):
            raise Unsupported('binary %s on %r, %r' % (op, a, b))
        x = a.t if a.s.k == 'int' else z3.If(a.t, 1, 0)
        y = b.t if b.s.k == 'int' else z3.If(b.t, 1, 0)
        if op in ('<', '>', '<=', '>='):
            return V(BOOL, [z3.simplify({'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op])])
        if op == '+':
            return V(s, [self.wrap(x + y, s, add=True)])
        if op == '-':
            return V(s, [self.wrap(x - y, s, add=True)])
        if op == '*':
            return V(s, [self.wrap(x * y, s)])
        if op in ('/', '%'):
            if self.safety:
                self.check('no division by zero', y != 0, tag='safety')
            else:
                self.assume(y != 0)
            if s.sg:
                q = z3.If(x >= 0, z3.If(y > 0, x / y, -(x / (-y))), z3.If(y > 0, -((-x) / y), (-x) / (-y)))
                return V(s, [z3.simplify(q if op == '/' else x - y * q)])
            return V(s, [x / y if op == '/' else x % y])
        if op == '<<' and z3.is_int_value(y):
            return V(s, [self.wrap(x * (1 << y.as_long()), s)])
        if op == '>>' and z3.is_int_value(y):
            return V(s, [x / (1 << y.as_long())])
        if op in ('&', '|', '^'):
            return V(s, [self.bitop(op, x, y)])
        raise Unsupported('binary ' + op)

    def bitop(self, op, x, y):
        x, y = z3.simplify(x), z3.simplify(y)
        if z3.is_int_value(x) and z3.is_int_value(y):
            a, b = x.as_long(), y.as_long()
            return z3.IntVal({'&': a & b, '|': a | b, '^': a ^ b}[op])
        if z3.is_int_value(x):
            x, y = y, x
        if op == '&' and z3.is_int_value(y):
            m = y.as_long()
            if m >= 0 and (m + 1) & m == 0:       # low mask
                return x % (m + 1)
            runs = [(q.start(), q.end()) for q in re.finditer('1+', bin(m)[2:][::-1])] if m > 0 else []
            if m > 0 and len(runs) <= 4:
                return z3.simplify(sum([((x / (1 << lo)) % (1 << (hi - lo))) * (1 << lo) for lo, hi in runs], z3.IntVal(0)))
        if op in ('|', '^') and z3.is_int_value(y) and y.as_long() >= 0 and bin(y.as_long()).count('1') <= 4:
            m, r = y.as_long(), x
            for b in range(m.bit_length()):
                if m >> b & 1:
                    bit = (x / (1 << b)) % 2
                    r = r + z3.If(bit == 0, 1 << b, 0 if op == '|' else -(1 << b))
            return z3.simplify(r)
        f = z3.Function('bit' + op, Int, Int, Int)
        r = f(x, y)
        if op == '|':
            self.assume(z3.Implies(z3.And(x >= 0, y >= 0), z3.And(r >= x, r >= y)))
        return r

    def e_assign(self, fr, e):
        b = self.rv(fr, e['b'])
        lv = self.ev(fr, e['a'])
        self.write(lv, self.coerce(b, lv.s))
        return lv

    def e_cassign(self, fr, e):
        lv = self.ev(fr, e['a'])
        b = self.rv(fr, e['b'])
        a = self.read(lv)
        s = lv.s
        ct = fr.tu.types[e['ct']]
        if isinstance(a, V) and a.s.k == 'mptr':
            r = self.binop(e['op'][:1], a, b, a.s)
        else:
            cs = self.shape(ct)
            a2 = self.convert(a, cs)
            r = self.binop(e['op'].rstrip('='), a2, b, cs)
            r = self.convert(r, s)
        self.write(lv, r)
        return lv

    def convert(self, v, s):
        """arithmetic conversion"""
        if not isinstance(v, V):
            return v
        k = v.s.k
        if s.k == 'bool':
            if k == 'bool':
                return v
            if k == 'int' or k == 'ptr' or k == 'mptr' or k == 'fn':
                return V(BOOL, [z3.simplify(v.t != 0)])
            if k == 'dbl':
                return V(BOOL, [z3.Not(self.dpred('==', v.t, self.dlit(0.0)))])
        if s.k == 'int':
            if k == 'bool':
                return V(s, [z3.simplify(z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))])
            if k == 'int':
                if s.ty is not None and s.ty.k == 'enum':
                    return V(s, v.c)
                lo, hi = self.rng(s)
                lo0, hi0 = self.rng(v.s)
                t = v.t
                if lo <= lo0 and hi0 <= hi:
                    return V(s, [t])
                m = 1 << s.w
                if z3.is_int_value(t):
                    x = t.as_long() % m
                    if s.sg and x >= m // 2:
                        x -= m
                    return V(s, [z3.IntVal(x)])
                if v.s.w <= s.w:       # same width or wider target, sign change only
                    if s.sg:
                        return V(s, [z3.If(t > hi, t - m, t)])
                    return V(s, [z3.If(t < 0, t + m, t)])
                r = t % m
                if s.sg:
                    r = z3.If(r > hi, r - m, r)
                return V(s, [z3.If(z3.And(t >= lo, t <= hi), t, r)])
            if k == 'dbl':
                f = z3.Function('dbl.toint%d%s' % (s.w, 's' if s.sg else 'u'), Dbl, Int)
                r = V(s, [f(v.t)])
                self.typed(r)
                return r
        if s.k == 'dbl':
            if k == 'int':
                if z3.is_int_value(v.t):
                    return V(s, [self.dlit(float(v.t.as_long()))])
                return V(s, [z3.Function('dbl.ofint', Int, Dbl)(v.t)])
            if k == 'bool':
                return V(s, [z3.If(v.t, self.dlit(1.0), self.dlit(0.0))])
        return v

    def e_cast(self, fr, e):
        ck = e['ck']
        if ck == 'LValueToRValue':
            x = self.ev(fr, e['e'])
            return self.val(x)
        if ck == 'ArrayToPointerDecay':
            x = self.ev(fr, e['e'])
            if isinstance(x, LV):
                v = self.read(x)
                if isinstance(v, V) and v.s.k == 'str':
                    c = CStr(v.t, src=x, cap=self.T(fr, e['e']).len)
                    return c
                return AddrV(x)
            if isinstance(x, IList):
                return x
            raise Unsupported('array decay')
        if ck == 'FunctionToPointerDecay':
            return self.ev(fr, e['e'])
        if ck == 'NullToPointer':
            s = self.shape(self.T(fr, e))
            return self.zero(s)
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'ConstructorConversion', 'UserDefinedConversion', 'AtomicToNonAtomic', 'NonAtomicToAtomic', 'LValueBitCast', 'Dependent', 'BuiltinFnToFnPtr'):
            x = self.ev(fr, e['e'])
            if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived') and isinstance(x, ObjLV):
                to = self.T(fr, e)
                if to.k == 'rec' and to.user:
                    return ObjLV(x.loc, strip_const(to.s), self.shape(to))
            if ck == 'BaseToDerived' and isinstance(x, V) and x.s.k == 'ptr':
                return V(self.shape(self.T(fr, e)), x.c)
            if ck in ('DerivedToBase',) and isinstance(x, V) and x.s.k == 'ptr':
                return V(self.shape(self.T(fr, e)), x.c)
            return x
        if ck == 'Dynamic':
            x = self.val(self.ev(fr, e['e']))
            to = self.T(fr, e)
            if to.k == 'ptr' and isinstance(x, V):
                c = z3.And(x.t != 0, self.isdyn(x.t, strip_const(to.to.s)))
                return V(self.shape(to), [z3.If(c, x.t, z3.IntVal(0))])
            raise Unsupported('dynamic_cast')
        if ck == 'ToVoid':
            self.ev(fr, e['e'])
            return V(UNIT, [])
        x = self.rv(fr, e['e'])
        s = self.shape(self.T(fr, e))
        if ck in ('IntegralCast', 'IntegralToBoolean', 'IntegralToFloating', 'FloatingToIntegral', 'FloatingToBoolean', 'FloatingCast', 'PointerToBoolean', 'MemberPointerToBoolean', 'BooleanToSignedIntegral'):
            if ck == 'PointerToBoolean' and isinstance(x, (CStr, AddrV, FnRef)):
                if isinstance(x, CStr) and x.null is not None:
                    return V(BOOL, [z3.Not(x.null)])
                return V(BOOL, [z3.BoolVal(True)])
            v = self.convert(x, s)
            if s.k == 'dbl' and strip_const(self.T(fr, e).s) == 'float' and strip_const(self.T(fr, e['e']).s) != 'float':
                return V(s, [self.single(v.t)])
            return v
        if ck == 'BitCast':
            if isinstance(x, V) and x.s.k == 'ptr' and s.k == 'mptr':
                return V(s, [x.t, z3.IntVal(0)])
            if isinstance(x, V) and x.s.k == 'mptr' and s.k == 'ptr':
                if self.hooks.get('keep_mptr', True):
                    return x
                return V(s, [x.t])
            if isinstance(x, V) and x.s.k == 'ptr' and s.k == 'fn':
                return V(FN, x.c)
            if isinstance(x, V) and x.s.k == 'mptr' and s.k == 'fn':
                return V(FN, [z3.simplify(-x.c[0])])        # outside functions are not positive
            if isinstance(x, V) and x.s.k == 'ptr' and s.k == 'ptr':
                return V(s, x.c)
            return x
        raise Unsupported('cast ' + ck)

    def e_sub(self, fr, e):
        a = self.ev(fr, e['a'])
        i = self.rv(fr, e['b'])
        a = self.val(a) if isinstance(a, LV) else a
        if isinstance(a, V) and a.s.k == 'int':
            a, i = i, a
        if isinstance(a, AddrV):
            lv = a.lv
            if lv.s.k == 'seq':
                n = self.read(lv).t
                self.bounds_check(i.t, n)
                return ElemLV(lv, i.t, lv.s.a)
        if isinstance(a, CStr):
            if a.src is not None:
                return self.lib.char_lv(a, i.t)
            return self.cell(V(Sh('int', [Int], w=8, sg=True), [self.S.char(a.t, i.t)]))
        if isinstance(a, V) and a.s.k == 'mptr':
            return self.lib.mem_lv(V(a.s, [a.c[0], z3.simplify(a.c[1] + i.t)]))
        raise Unsupported('subscript of %r' % (a,))

    def bounds_check(self, i, n):
        c = z3.simplify(z3.And(i >= 0, i < n))
        if z3.is_true(c):
            return
        if self.safety:
            self.check('index in bounds', c, tag='safety')
        else:
            self.assumptions.add('element accesses are in bounds')
            self.assume(c)

    def e_lambda(self, fr, e):
        fn = fr.tu.fns[e['fn']]
        vars = {}
        own = {}
        this = None
        for c in e['caps']:
            if c.get('this'):
                this = fr.this
                continue
            if c['byref']:
                vars[c['d']] = fr.vars[c['d']] if c['d'] in fr.vars else self.ev(fr, c['init'])
            else:
                ty = fr.tu.types[c['t']]
                s = self.shape(ty)
                if 'init' in c:
                    lv = self.cell(self.undef(s) if s.k == 'struct' else None, s)
                    self.init(fr, lv, c['init'])
                else:
                    lv = self.cell(self.val(fr.vars[c['d']]), s)
                vars[c['d']] = lv
                own[c['d']] = ty
        self.st.ctr += 1
        cid = self.st.ctr
        self.st.clos[cid] = Closure(fn, fr.tu, vars, this, own)
        return V(FN, [z3.IntVal(cid)])

    def e_throw(self, fr, e):
        if 'e' not in e:
            if fr.exc:
                raise fr.exc[-1]
            raise Unsupported('rethrow')
        ty = self.T(fr, e['e'])
        s = self.shape(ty)
        if s.k == 'struct':
            lv = self.cell(self.undef(s), s)
            self.init(fr, lv, e['e'])
            raise CxxThrow(strip_const(ty.s), self.read(lv))
        v = self.val(self.ev(fr, e['e']))
        raise CxxThrow(strip_const(ty.s), v)

    def e_stmtexpr(self, fr, e):
        b = e['body']
        stmts = b['b']
        r = None
        for i, s in enumerate(stmts):
            if i == len(stmts) - 1 and s['k'] == 'expr':
                r = self.ev(fr, s['e'])
            else:
                self.ex(fr, s)
        return r if r is not None else V(UNIT, [])

    def e_new(self, fr, e):
        ty = fr.tu.types[e['of']]
        if 'size' in e:
            n = self.rv(fr, e['size'])
            return self.lib.new_array(ty, n)
        s = self.shape(ty)
        cn = strip_const(ty.s)
        loc = self.alloc(cn)
        lv = self.objlv(loc, ty)
        self.write(lv, self.undef(s)) if not isinstance(lv, ObjLV) else None
        if 'init' in e:
            self.init(fr, lv, e['init'])
        return V(Sh('ptr', [Int], ty=ty), [loc])

    def e_delete(self, fr, e):
        p = self.rv(fr, e['e'])
        return self.lib.delete(p, e.get('arr'), self.T(fr, e['e']))

    # ------------------------------------------------------------ calls
    def args(self, fr, fn, args):
        r = []
        for i, a in enumerate(args):
            pt = fn.pt[i] if i < len(fn.pt) else None
            r.append(self.arg(fr, a, pt))
        return r

    def arg(self, fr, a, pt):
        if pt is not None and pt.k == 'ref':
            x = self.ev(fr, a)
            if not isinstance(x, LV) and isinstance(x, (V,)):
                return self.cell(x)
            return x
        s = self.shape(self.T(fr, a))
        if s.k == 'struct' and not a.get('lv'):
            lv = self.cell(self.undef(s), s)
            self.init(fr, lv, a)
            return self.read(lv)
        return self.val(self.ev(fr, a))

    def e_call(self, fr, e):
        fn = fr.tu.fns[e['fn']]
        self.where = '%s:%s' % (fr.fn.js.get('bfile', '') if fr.fn else '', e.get('l'))
        a = self.args(fr, fn, e['args'])
        return self.call(fn, None, a, fr, e)

    def e_mcall(self, fr, e):
        fn = fr.tu.fns[e['fn']]
        o = self.ev(fr, e['obj'])
        self.where = '%s:%s' % (fr.fn.js.get('bfile', '') if fr.fn else '', e.get('l'))
        if e.get('arrow'):
            o = self.deref(o, self.T(fr, e['obj']))
        elif not isinstance(o, LV):
            o = self.cell(o, self.shape(self.T(fr, e['obj'])))
        a = self.args(fr, fn, e['args'])
        if fn.static:
            o = None
        return self.call(fn, o, a, fr, e, virt=e.get('virt', False))

    def e_opcall(self, fr, e):
        fn = fr.tu.fns[e['fn']]
        self.where = '%s:%s' % (fr.fn.js.get('bfile', '') if fr.fn else '', e.get('l'))
        if e.get('member'):
            xs = e['args']
            if e['op'] == '=' or e['op'] in ('+=', '-='):
                a = self.args(fr, fn, xs[1:])       # right operand first (C++17 order; C++14 unspecified)
                o = self.ev(fr, xs[0])
            else:
                o = self.ev(fr, xs[0])
                a = self.args(fr, fn, xs[1:])
            if not isinstance(o, LV):
                o = self.cell(o, self.shape(self.T(fr, xs[0])))
            return self.call(fn, o, a, fr, e)
        a = self.args(fr, fn, e['args'])
        return self.call(fn, None, a, fr, e)

    def e_icall(self, fr, e):
        f = self.val(self.ev(fr, e['f']))
        args = [self.ev(fr, a) for a in e['args']]
        args = [a if isinstance(a, LV) and self.T(fr, x).k == 'ref' else self.val(a) for a, x in zip(args, e['args'])]
        if isinstance(f, FnRef):
            return self.call(f.fn, None, args, fr, e)
        h = self.hooks.get('icall')
        if h:
            return h(self, f, args, fr, e)
        raise Unsupported('indirect call')

    def e_construct(self, fr, e):
        fn = fr.tu.fns[e['fn']]
        ty = self.T(fr, e)
        s = self.shape(ty)
        args = e['args']
        if s.k == 'struct':
            lv = self.cell(self.undef(s), s)
            self.init(fr, lv, e)
            return self.read(lv)
        if e.get('elide') and len(args) == 1 and args[0]['k'] == 'mtemp' and (fn.js.get('copyctor') or fn.js.get('movector')):
            return self.val(self.ev(fr, args[0]['e']))
        a = self.args(fr, fn, args)
        return self.construct(fn, ty, a)

    def construct(self, fn, ty, a):
        """value of a class type built from evaluated arguments"""
        s = self.shape(ty)
        if s.k == 'struct':
            lv = self.cell(self.undef(s), s)
            self.call_ctor(fn, lv, a)
            return self.read(lv)
        if s.k == 'abs' or fn.user:
            c = self.contract_for(fn)
            if c is not None:
                self.used_contracts.add(c.name)
                return c.apply(self, fn, None, a)
            raise Unsupported('constructor %s without contract' % fn.key)
        return self.lib.construct(fn, ty, a)

    def call_ctor(self, fn, lv, a):
        fn = self.prog.resolve(fn)
        c = self.contract_for(fn)
        if c is not None:
            self.used_contracts.add(c.name)
            return c.apply(self, fn, lv, a)
        if fn.body is None and not fn.inits:
            if fn.js.get('copyctor') or fn.js.get('movector'):
                self.write(lv, self.val(a[0]))
                return
            if fn.js.get('defctor') and fn.implicit:
                return
            r = self.lib.ext_ctor(fn, lv, a)
            if r is not NotImplemented:
                return
            raise Unsupported('constructor without body: ' + fn.key)
        self.inline(fn, lv, a)

    def contract_for(self, fn):
        for c in self.contracts:
            if c.match(fn):
                return c
        return None

    def call(self, fn, this, a, fr=None, e=None, virt=False):
        f = self.prog.resolve(fn)
        c = self.contract_for(f)
        if c is not None:
            self.used_contracts.add(c.name)
            return c.apply(self, f, this, a)
        if not f.user and not f.lam:
            self.used_lib.add(f.q)
            return self.lib.call(f, this, a, fr, e)
        if f.lam is not None:
            # direct call of a lambda object
            v = self.read(this)
            return self.call_fn_value(v, a, f)
        if virt:
            cands = self.prog.overr.get(f.key, [])
            if cands or f.js.get('pure'):
                return self.vcall(f, cands, this, a)
        if f.body is None:
            if f.js.get('copyassign') or f.js.get('moveassign'):
                self.write(this, self.val(a[0]))
                return this
            raise Unsupported('no body: ' + f.key)
        return self.inline(f, this, a)

    def vcall(self, f, cands, this, a):
        def impl(cls):
            for c in reversed(self.class_chain(cls)):
                if strip_const(f.cls.s) == c:
                    return f
                for g in cands:
                    if strip_const(g.cls.s) == c:
                        return g
            return f
        if not isinstance(this, ObjLV):
            g = impl(this.s.cls)
        else:
            concrete = []
            for c in self.prog.subclasses(this.cls):
                g = impl(c)
                if not g.js.get('pure'):
                    concrete.append((c, g))
            groups = {}
            for c, g in concrete:
                groups.setdefault(g.key, (g, []))[1].append(c)
            if not groups:
                raise Unsupported('no implementation of ' + f.key)
            gl = list(groups.values())
            if len(gl) == 1:
                g = gl[0][0]
            else:
                d = self.dyn(this.loc)
                i = self.choose([z3.simplify(z3.Or([d == self.clsids[c] for c in cs])) for _, cs in gl])
                g = gl[i][0]
            if strip_const(g.cls.s) != this.cls:
                this = ObjLV(this.loc, strip_const(g.cls.s), self.struct_shape(strip_const(g.cls.s)))
        return self.call(g, this, a)

    def inline(self, f, this, a, closure=None):
        key = f.key
        if self.stack.count(key) > 0 and closure is None or len(self.stack) > 60:
            raise Unsupported('recursive call of %s needs a contract' % key)
        self.stack.append(key)
        if not self.quiet:
            self.inlined.add(key)
        fr = Frame(f.tu, f, this)
        if closure is not None:
            fr.vars.update(closure.vars)
            fr.this = closure.this
        own = []
        for i, p in enumerate(f.params):
            ty = f.tu.types[p['t']]
            if i >= len(a):
                raise Unsupported('missing argument in call of ' + key)
            x = a[i]
            if ty.k == 'ref':
                fr.vars[p['d']] = x if isinstance(x, LV) else self.cell(x, self.shape(ty))
            else:
                v = self.val(x)
                s = self.shape(ty)
                if isinstance(v, V):
                    v = self.coerce(v, s)
                lv = self.cell(v, s)
                fr.vars[p['d']] = lv
                own.append((lv, ty))
        try:
            if f.ctor:
                self.run_inits(fr, f, this)
            try:
                if f.body is not None:
                    self.ex(fr, f.body)
                r = V(UNIT, [])
            except Ret as ret:
                r = ret.v
        except CxxThrow:
            self.destroy(own)
            raise
        finally:
            if self.stack and self.stack[-1] == key:
                self.stack.pop()
        self.destroy(own)
        if f.ret.k == 'ref' and isinstance(r, LV):
            return r
        return self.val(r) if isinstance(r, LV) else r

    def run_inits(self, fr, f, this):
        for ini in f.inits:
            e = ini['e']
            if 'base' in ini:
                bt = fr.tu.types[ini['base']]
                if bt.user and strip_const(bt.s) in self.prog.recs:
                    if e['k'] == 'construct':
                        bf = fr.tu.fns[e['fn']]
                        lv = this
                        if isinstance(this, ObjLV):
                            lv = ObjLV(this.loc, strip_const(bt.s), self.shape(bt))
                        a = self.args(fr, bf, e['args'])
                        self.call_ctor(bf, lv, a)
                elif e['k'] == 'construct':
                    a = self.args(fr, fr.tu.fns[e['fn']], e['args'])
                    h = self.hooks.get('base_ctor')
                    if h:
                        h(self, bt, this, a)
                continue
            if 'deleg' in ini:
                bf = fr.tu.fns[e['fn']]
                a = self.args(fr, bf, e['args'])
                self.call_ctor(bf, this, a)
                continue
            ft = fr.tu.types[ini['ft']]
            lv = self.field(this, strip_const(ini['cls']), ini['f'], self.shape(ft))
            self.init(fr, lv, e)

    def has_dtor(self, ty):
        cn = strip_const(ty.s)
        rec = self.prog.recs.get(cn)
        if rec is None:
            return None
        for m in rec.methods:
            if m.js.get('dtor'):
                r = self.prog.resolve(m)
                if r.body is not None and not m.js.get('implicit'):
                    return r
        return None

    def destroy(self, own):
        for lv, ty in reversed(own):
            if ty.k != 'rec':
                continue
            v = self.st.cells.get(lv.cid)
            if isinstance(v, LockV):
                self.unlock_v(v)
                self.st.cells[lv.cid] = LockV(v.m, False)
            elif ty.user:
                d = self.has_dtor(ty)
                if d is not None and not self.hooks.get('skip_dtors'):
                    self.call(d, lv, [])

    def call_fn_value(self, v, a, f=None):
        t = z3.simplify(v.t)
        if z3.is_int_value(t):
            n = t.as_long()
            if n == 0:
                raise CxxThrow('std::bad_function_call')
            c = self.st.clos.get(n)
            if c is None:
                raise Unsupported('unknown closure %d' % n)
            fn = c.fn
            if self.stack.count(fn.key) > 1:
                raise Unsupported('recursive closure call')
            ct = self.contract_for(fn)
            if ct is not None:
                return ct.apply(self, fn, c.this, a)
            if fn.lam is None:
                return self.call(fn, None, a)
            return self.inline(fn, None, a, closure=c)
        # symbolic: one of the closures created on this path, null, or unknown code
        if any(self.mentions(t, k) for k in self.st.clos):
            cands = [k for k in self.st.clos if self.mentions(t, k)]
            conds = [t == k for k in cands] + [t == 0, z3.And([t != 0] + [t != k for k in cands])]
            i = self.choose(conds)
            if i < len(cands):
                return self.call_fn_value(V(FN, [z3.IntVal(cands[i])]), a, f)
            if i == len(cands):
                raise CxxThrow('std::bad_function_call')
        elif self.branch(t == 0):
            raise CxxThrow('std::bad_function_call')
        h = self.hooks.get('unknown_call')
        if h:
            return h(self, t, a, f)
        raise Unsupported('call of an unknown function value')

    def mentions(self, t, n):
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_int_value(x) and x.as_long() == n:
                return True
            st += x.children()
        return False

    # ------------------------------------------------------------ locks
    def lock_id(self, lv):
        if isinstance(lv, HeapLV):
            return ('h', lv.cls, lv.f, lv.loc)
        return lv.key()

    def is_global_key(self, k):
        """a place with static storage duration shared by all threads"""
        if k[0] == 's' and len(k) == 3:
            return self.is_global_key(k[1])
        return k[0] == 'c' and isinstance(k[1], tuple) and k[1][0] in ('g', 's') and not str(k[1][1]).startswith('tls:')

    def same_lock(self, a, b):
        if a[0] == 'h' and b[0] == 'h':
            if a[1:3] != b[1:3]:
                return z3.BoolVal(False)
            return z3.simplify(a[3] == b[3])
        return z3.BoolVal(a == b)

    def lock(self, lv):
        i = self.lock_id(lv)
        h = self.hooks.get('lock')
        if h:
            h(self, i)
        self.st.held = self.st.held + (i,)

    def unlock(self, i):
        for n in range(len(self.st.held) - 1, -1, -1):
            x = self.st.held[n]
            same = (x[:3] == i[:3] and x[3].eq(i[3])) if x[0] == 'h' == i[0] else x == i
            if same:
                h = self.hooks.get('unlock')
                if h:
                    h(self, i)
                self.st.held = self.st.held[:n] + self.st.held[n + 1:]
                return
        self.check('a lock is only released while it is held', z3.BoolVal(False), tag='lock')

    def unlock_v(self, v):
        if v.owns and v.m is not None:
            self.unlock(v.m)

    # ------------------------------------------------------------ statements
    def ex(self, fr, s):
        if s is None:
            return
        k = s['k']
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise Unsupported('statement %s %s' % (k, s.get('what', '')))
        m(fr, s)

    def s_block(self, fr, s):
        saved = fr.scope
        fr.scope = []
        try:
            for x in s['b']:
                self.ex(fr, x)
        except (CxxThrow, Ret, Brk, Cont):
            own = fr.scope
            fr.scope = saved
            self.destroy(own)
            raise
        except BaseException:
            fr.scope = saved
            raise
        own = fr.scope
        fr.scope = saved
        self.destroy(own)

    def declare(self, fr, v):
        ty = fr.tu.types[v['t']]
        if v.get('static'):
            cid = ('s', fr.tu.name, v['d']) if not v.get('tls') else ('s', 'tls:' + fr.tu.name, v['d'])
            s = self.shape(ty)
            if cid not in self.st.cells:
                h = self.hooks.get('static_local')
                self.st.cells[cid] = h(self, v, ty) if h else self.newsym(s, 'static')
            fr.vars[v['d']] = CellLV(cid, s)
            return
        if ty.k == 'ref':
            x = self.ev(fr, v['init'])
            fr.vars[v['d']] = x if isinstance(x, LV) else self.cell(x, self.shape(ty))
            return
        s = self.shape(ty)
        lv = self.cell(None, s)
        if 'init' in v and v['init'] is not None:
            if s.k == 'struct':
                self.st.cells[lv.cid] = self.undef(s)
            fr.vars[v['d']] = lv
            self.init(fr, lv, v['init'])
        else:
            self.st.cells[lv.cid] = self.lib.uninit(ty, s)
            fr.vars[v['d']] = lv
        if v.get('bindings'):
            for b in v['bindings']:
                if 'e' in b:
                    fr.vars[b['d']] = self.ev(fr, b['e'])
                elif 'hold' in b:
                    self.declare(fr, b['hold'])
                    fr.vars[b['d']] = fr.vars[b['hold']['d']]
        if fr.scope is not None and ty.k == 'rec':
            fr.scope.append((lv, ty))

    def s_decl(self, fr, s):
        for v in s['v']:
            self.declare(fr, v)

    def s_expr(self, fr, s):
        r = self.ev(fr, s['e'])
        if isinstance(r, LockV):
            self.unlock_v(r)      # a discarded lock object is destroyed at the end of the statement

    def s_if(self, fr, s):
        if s.get('init'):
            self.ex(fr, s['init'])
        if s.get('var'):
            self.declare(fr, s['var'])
        c = self.rv(fr, s['c'])
        if self.branch(self.convert(c, BOOL).t):
            self.ex(fr, s['a'])
        elif s.get('b'):
            self.ex(fr, s['b'])

    def s_return(self, fr, s):
        if 'e' not in s or s['e'] is None:
            raise Ret(V(UNIT, []))
        if fr.fn is not None and fr.fn.ret.k == 'ref':
            raise Ret(self.ev(fr, s['e']))
        sh = self.shape(self.T(fr, s['e']))
        if sh.k == 'struct' and not s['e'].get('lv'):
            lv = self.cell(self.undef(sh), sh)
            self.init(fr, lv, s['e'])
            raise Ret(self.read(lv))
        v = self.val(self.ev(fr, s['e']))
        if fr.fn is not None and isinstance(v, V):
            v = self.coerce(v, self.shape(fr.fn.ret))
        raise Ret(v)

    def s_break(self, fr, s):
        raise Brk()

    def s_continue(self, fr, s):
        raise Cont()

    def s_switch(self, fr, s):
        if s.get('init'):
            self.ex(fr, s['init'])
        if s.get('var'):
            self.declare(fr, s['var'])
        c = self.rv(fr, s['c']).t
        body = s['b']['b'] if s['b']['k'] == 'block' else [s['b']]
        flat, labels = [], []
        for x in body:
            while x is not None and x['k'] in ('case', 'default'):
                labels.append((x.get('v') if x['k'] == 'case' else None, len(flat)))
                x = x['b']
            flat.append(x)
        cases = [(v, i) for v, i in labels if v is not None]
        dflt = [i for v, i in labels if v is None]
        conds = [z3.simplify(c == v) for v, _ in cases] + [z3.simplify(z3.And([c != v for v, _ in cases]))]
        j = None
        for n, cd in enumerate(conds):
            if z3.is_true(cd):
                j = n
        if j is None:
            j = self.choose(conds)
        start = cases[j][1] if j < len(cases) else (dflt[0] if dflt else len(flat))
        saved = fr.scope
        fr.scope = []
        try:
            try:
                for x in flat[start:]:
                    # labels nested deeper are not supported by the flattening above
                    self.ex(fr, x)
            except Brk:
                pass
        except (CxxThrow, Ret, Cont):
            own = fr.scope
            fr.scope = saved
            self.destroy(own)
            raise
        except BaseException:
            fr.scope = saved
            raise
        own = fr.scope
        fr.scope = saved
        self.destroy(own)

    def s_try(self, fr, s):
        try:
            self.ex(fr, s['b'])
        except CxxThrow as exc:
            for h in s['h']:
                if 't' in h:
                    ty = fr.tu.types[h['t']]
                    base = ty.to if ty.k == 'ref' else ty
                    if not self.prog.is_sub(exc.typ, strip_const(base.s)):
                        continue
                    if 'd' in h:
                        v = exc.val
                        s2 = self.shape(base)
                        if v is None or (isinstance(v, V) and v.s.k != s2.k):
                            v = self.newsym(s2, 'exc') if s2.n else V(s2, [])
                        elif isinstance(v, V) and v.s.k == 'struct' and s2.k == 'struct' and v.s.cls != s2.cls:
                            c = ()
                            for (cl, f, fs) in s2.fields:
                                o, _ = v.s.offs[(cl, f)]
                                c += v.c[o:o + fs.n]
                            v = V(s2, c)
                        fr.vars[h['d']] = self.cell(v, s2)
                fr.exc.append(exc)
                try:
                    self.ex(fr, h['b'])
                finally:
                    fr.exc.pop()
                return
            raise

    def s_while(self, fr, s):
        self.loop(fr, s, lambda: self.cond(fr, s), s['b'], None)

    def s_do(self, fr, s):
        # do b while(c)  ==  b; while(c) b
        try:
            self.ex(fr, s['b'])
        except Brk:
            return
        except Cont:
            pass
        self.loop(fr, s, lambda: self.cond(fr, s), s['b'], None)

    def cond(self, fr, s):
        if s.get('var'):
            self.declare(fr, s['var'])
        if 'c' not in s or s['c'] is None:
            return z3.BoolVal(True)
        return self.convert(self.rv(fr, s['c']), BOOL).t

    def s_for(self, fr, s):
        saved = fr.scope
        fr.scope = []
        try:
            if s.get('init'):
                self.ex(fr, s['init'])
            self.loop(fr, s, lambda: self.cond(fr, s), s['b'], s.get('inc'))
        finally:
            fr.scope = saved

    def s_rangefor(self, fr, s):
        self.ex(fr, s['range'])
        self.ex(fr, s['begin'])
        self.ex(fr, s['end'])
        b = {'k': 'block', 'b': [s['var'], s['b']]}
        self.loop(fr, s, lambda: self.convert(self.rv(fr, s['c']), BOOL).t, b, s['inc'])

    def s_unsup(self, fr, s):
        raise Unsupported('statement ' + s.get('what', ''))

    # ------------------------------------------------------------ loops
    UNROLL = 24

    def loop(self, fr, s, cond, body, inc):
        import loops
        loops.run(self, fr, s, cond, body, inc)

    # ------------------------------------------------------------ entry points
    def run(self, thunk):
        return self.explore(thunk)


def walk_json(x):
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            if 'k' in y:
                yield y
            st += list(y.values())
        elif isinstance(y, list):
            st += y
