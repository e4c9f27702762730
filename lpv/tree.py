"""Shared contract vocabulary of the payload tree: the representation of a node is found by the
shape of its fields; the observable content of a node is stated over them."""
from spec import *

RAW = 'lp::messages::RawDatagram'
DG = 'lp::messages::Datagram'
BASE = 'lp::messages::DataBase'
DATA = 'lp::messages::Data<%s>'
SCALARS = {'String': 'std::string', 'Int': 'int', 'Double': 'double', 'Bool': 'bool'}
STRINGS = ('std::string',)


class Rep:
    """names of the fields and values of the kind enumeration"""
    def __init__(self, X):
        p = X.prog
        r = p.recs[RAW]
        self.dict = self.list = self.value = self.kind = None
        for n, t, _ in r.fields:
            s = X.shape(t)
            if s.k == 'map' and self.dict is None:
                self.dict, self.SD = n, s
            elif s.k == 'seq' and self.list is None:
                self.list, self.SL = n, s
            elif s.k == 'ptr' and self.value is None:
                self.value, self.SV = n, s
            elif s.k == 'int' and t.k == 'enum':
                self.kind, self.SK = n, s
            else:
                raise Unsupported('unknown field %s::%s' % (RAW, n))
        if None in (self.dict, self.list, self.value, self.kind):
            raise Unsupported('fields of %s' % RAW)
        self.E, self.L, self.D, self.V = [z3.IntVal(enum(p, 'lp::messages::RawDatagramType', x)) for x in ('Empty', 'List', 'Dictionary', 'Value')]


def enum(prog, name, const):
    for tu in prog.tus:
        for t in tu.types:
            if t.k == 'enum' and t.n == name and t.consts:
                return t.consts[const]
    raise Unsupported('enumerator %s::%s' % (name, const))


def engine(prog, strs=None, **kw):
    X = Engine(prog, strs or StrOpaque(), **kw)
    X.R = Rep(X)
    return X


def kind(X, n, st=None):
    return getf(X, n, RAW, X.R.kind, st).t


def dic(X, n, st=None):
    return getf(X, n, RAW, X.R.dict, st)


def lst(X, n, st=None):
    return getf(X, n, RAW, X.R.list, st)


def value(X, n, st=None):
    return getf(X, n, RAW, X.R.value, st).t


def data_content(X, T, d, st=None):
    """the value held by a Data<T> object"""
    cls = DATA % T
    fs = X.prog.recs[cls].fields
    if len(fs) != 1:
        raise Unsupported('fields of %s' % cls)
    return getf(X, d, cls, fs[0][0], st).t


def dynof(X, l, st=None):
    if st is None:
        return X.sel(X.harr(('$', 'dyn'), INT)[0], l)
    return X.sel(X.heap_at(st, ('$', 'dyn'), INT)[0], l)


def is_data(X, T, d, st=None):
    return dynof(X, d, st) == X.clsids[DATA % T]


def kq(X):
    return z3.Const('k!w', X.STR.sorts[0])


def wf(X, n, st=None, kinds=True):
    """representation invariant of one node: only the part that belongs to its kind holds content,
    items and entries are live nodes, a value node holds a value of one of the four types"""
    st = st or X.st
    R = X.R
    K, D, L, v = kind(X, n, st), dic(X, n, st), lst(X, n, st), value(X, n, st)
    i, k = z3.Const('i!w', Int), kq(X)
    israw = lambda x: dynof(X, x, st) == X.clsids[RAW]
    c = [z3.Or(K == R.E, K == R.L, K == R.D, K == R.V),
         L.t >= 0, z3.Implies(K != R.L, L.t == 0),
         z3.Implies(K != R.D, z3.ForAll([k], z3.Not(z3.Select(D.c[0], k)))),
         z3.Implies(K != R.D, X.card(D.c[0]) == 0),
         z3.Implies(K != R.V, v == 0),
         z3.Implies(K == R.V, z3.And(v > 0, v < st.nxt, z3.Or([is_data(X, T, v, st) for T in SCALARS.values()]))),
         z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < L.t), z3.And(z3.Select(L.c[1], i) > 0, z3.Select(L.c[1], i) < st.nxt, israw(z3.Select(L.c[1], i)))), patterns=[z3.Select(L.c[1], i)]),
         z3.ForAll([k], z3.Implies(z3.Select(D.c[0], k), z3.And(z3.Select(D.c[1], k) > 0, z3.Select(D.c[1], k) < st.nxt, israw(z3.Select(D.c[1], k)))), patterns=[z3.Select(D.c[1], k)])]
    return z3.And(c)


def node(X, hint='node'):
    """an arbitrary live well-formed node"""
    o = sym_this(X, RAW, hint)
    X.assume(X.dyn(o.loc) == X.clsids[RAW])
    X.assume(wf(X, o.loc))
    X.map_axioms(dic(X, o.loc).c[0])
    return o


def raw(X, loc):
    return ObjLV(loc, RAW, X.struct_shape(RAW))


def same_list(a, b):
    i = z3.Const('i!s', Int)
    return z3.And(a.t == b.t, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a.t), z3.Select(a.c[1], i) == z3.Select(b.c[1], i))))


def same_dict(X, a, b, but=None):
    k = kq(X)
    e = z3.And(z3.Select(a.c[0], k) == z3.Select(b.c[0], k), z3.Implies(z3.Select(a.c[0], k), z3.Select(a.c[1], k) == z3.Select(b.c[1], k)))
    return z3.ForAll([k], e if but is None else z3.Implies(k != but, e))


def same_node(X, n, a, b):
    """the node has the same content in two states"""
    R = X.R
    return z3.And(kind(X, n, a) == kind(X, n, b), z3.Implies(kind(X, n, a) == R.L, same_list(lst(X, n, a), lst(X, n, b))),
                  z3.Implies(kind(X, n, a) == R.D, same_dict(X, dic(X, n, a), dic(X, n, b))),
                  z3.Implies(kind(X, n, a) == R.V, value(X, n, a) == value(X, n, b)))


def unchanged_but_nodes(X, old, locs):
    """every object that existed before is unchanged, except fields of the given nodes"""
    cs = []
    l = z3.Const('l!un', Int)
    for key, arrs in X.st.heap.items():
        o = X.heap_at_raw(old, key, arrs)
        ex = z3.And([l != x for x in locs]) if key[0] == RAW else z3.BoolVal(True)
        for a, b in zip(arrs, o):
            if not a.eq(b):
                cs.append(z3.ForAll([l], z3.Implies(z3.And(l >= 0, l < old.nxt, ex), z3.Select(a, l) == z3.Select(b, l))))
    return z3.And(cs) if cs else z3.BoolVal(True)


def empty_node(X, n, st=None):
    return z3.And(kind(X, n, st) == X.R.E, wf(X, n, st))


def dg_field(X):
    fs = X.prog.recs[DG].fields
    if len(fs) != 1:
        raise Unsupported('fields of ' + DG)
    return fs[0][0]


def datagram(X, n):
    """a Datagram handle (a place) of node n"""
    s = X.struct_shape(DG)
    return X.cell(V(s, [n]), s)


def handle_node(X, v):
    """node that a Datagram value designates"""
    return X.val(v).c[0]


# ---------------------------------------------------------------- structural identity
# A(l) stands for the tree below node l.  It is only used for nodes that nothing modifies while it is
# used: nodes that existed before the operation, and nodes of finished copies ("frozen", a ghost set
# whose members every write must avoid).
A = z3.Function('tree_of', Int, Int)


def same_value(X, v, w, sv, sw):
    """two value objects hold the same typed value"""
    return z3.Or([z3.And(is_data(X, T, v, sv), is_data(X, T, w, sw), data_content(X, T, v, sv) == data_content(X, T, w, sw)) for T in SCALARS.values()])


def iso1(X, n, m, sn, sm):
    """node n (in state sn) and node m (in state sm) have the same kind and content, children by A"""
    R = X.R
    i, k = z3.Const('i!iso', Int), z3.Const('k!iso', X.STR.sorts[0])
    L, M, D, E_ = lst(X, n, sn), lst(X, m, sm), dic(X, n, sn), dic(X, m, sm)
    return z3.And(kind(X, n, sn) == kind(X, m, sm),
                  z3.Implies(kind(X, m, sm) == R.L, z3.And(L.t == M.t, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < M.t), A(z3.Select(L.c[1], i)) == A(z3.Select(M.c[1], i))), patterns=[z3.Select(L.c[1], i)]))),
                  z3.Implies(kind(X, m, sm) == R.D, z3.ForAll([k], z3.And(z3.Select(D.c[0], k) == z3.Select(E_.c[0], k), z3.Implies(z3.Select(E_.c[0], k), A(z3.Select(D.c[1], k)) == A(z3.Select(E_.c[1], k)))), patterns=[z3.Select(D.c[1], k)])),
                  z3.Implies(kind(X, m, sm) == R.V, same_value(X, value(X, n, sn), value(X, m, sm), sn, sm)))


def children(X, n, p, st=None):
    """p holds for every child"""
    i, k = z3.Const('i!ch', Int), z3.Const('k!ch', X.STR.sorts[0])
    L, D = lst(X, n, st), dic(X, n, st)
    return z3.And(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < L.t), p(z3.Select(L.c[1], i))), patterns=[z3.Select(L.c[1], i)]),
                  z3.ForAll([k], z3.Implies(z3.Select(D.c[0], k), p(z3.Select(D.c[1], k))), patterns=[z3.Select(D.c[1], k)]))


def frozen(X, l, st=None):
    return z3.Select((st or X.st).ghost['frozen'], l)


def no_frozen(X):
    X.st.ghost['frozen'] = z3.K(Int, z3.BoolVal(False))


def write_guard(X):
    """no write may touch a finished copy"""
    def access(X, key, loc, how):
        if how == 'write' and key[0] != '$' and 'frozen' in X.st.ghost:
            f = X.st.ghost['frozen']
            if not (z3.is_app(f) and f.decl().kind() == z3.Z3_OP_CONST_ARRAY):
                X.check('finished copies are not modified', z3.Not(z3.Select(f, loc)))
    X.hooks['access'] = access


def grow(X):
    """other code allocated and filled any number of objects: everything below the old limit is as before"""
    n0 = X.st.nxt
    n1 = X.fresh(Int, 'nxt')
    X.assume(n1 >= n0)
    X.st.nxt = n1
    X.epochs[n1.decl().name()] = n0
    l = z3.Const('l!gr', Int)
    keys = [(RAW, f) for f in field_names(X, RAW)] + [(DATA % T, X.prog.recs[DATA % T].fields[0][0]) for T in SCALARS.values() if DATA % T in X.prog.recs]
    for c, f in keys:
        sh = [X.shape(t) for n, t, _ in X.prog.recs[c].fields if n == f][0]
        old = X.harr((c, f), sh)
        new = []
        for a in old:
            b = X.fresh(a.sort(), 'g')
            X.bounds[b.decl().name()] = n1
            X.frames[b.decl().name()] = (a, n0)
            X.assume(z3.ForAll([l], z3.Implies(l < n0, z3.Select(b, l) == z3.Select(a, l)), patterns=[z3.Select(b, l)]))
            new.append(b)
        X.st.heap[(c, f)] = tuple(new)
    return n0, n1


def freeze(X, n0, n1):
    f = X.st.ghost['frozen']
    g = X.fresh(f.sort(), 'frozen')
    l = z3.Const('l!fz', Int)
    X.assume(z3.ForAll([l], z3.Select(g, l) == z3.Or(z3.Select(f, l), z3.And(l >= n0, l < n1)), patterns=[z3.Select(g, l)]))
    X.st.ghost['frozen'] = g


def fresh_node(X, n0, n1):
    r = X.fresh(Int, 'copy')
    X.assume(z3.And(r >= n0, r < n1, r > 0))
    X.bounds[r.decl().name()] = n1
    X.lows[r.decl().name()] = n0
    X.assume(dynof(X, r) == X.clsids[RAW])
    return r


def copy_contract(X):
    def apply(X, fn, this, a):
        if not isinstance(this, ObjLV):
            raise Unsupported('copy of a node that is no object')
        X.check('the copied node is alive', z3.And(this.loc > 0, this.loc < X.st.nxt))
        old = X.st.copy()
        n0, n1 = grow(X)
        r = fresh_node(X, n0, n1)
        X.assume(A(r) == A(this.loc))
        X.assume(iso1(X, r, this.loc, X.st, old))
        X.assume(children(X, r, lambda c: z3.And(c >= n0, c < n1)))
        X.assume(wf(X, r))
        freeze(X, n0, n1)
        return V(X.shape(fn.ret), [r])
    return Contract('RawDatagram::Copy: a fresh, structurally identical tree; nothing else changes', RAW + '::Copy', apply)


def node_cells(X, ctx):
    """locations of the nodes local variables point to when the loop is entered"""
    r = []
    for c, v in sorted(ctx.entry.cells.items(), key=lambda x: str(x[0])):
        if isinstance(v, V) and v.s.k == 'ptr' and (v.s.ty is None or strip_const(v.s.ty.s) == RAW) and c not in ctx.mods.cells and not any(v.t.eq(x) for x in r) and not z3.is_int_value(v.t):
            r.append(v.t)
    return r[:6]


def positions(ctx):
    """loop positions: moved iterators (index), changed integers"""
    r = [('it%s' % c, lambda st, c=c: st.cells[c].i) for c, _ in ctx.iters()]
    r += [('n%s' % c, lambda st, c=c: st.cells[c].t) for c, _ in ctx.ints()]
    return r


def frame_invs(X, ctx, own, start):
    """frames of loops that build new nodes"""
    out = []
    l = z3.Const('l!fi', Int)
    for key in sorted(ctx.mods.heap):
        if key[0] == '$':
            continue
        old = X.heap_at_raw(ctx.entry, key)
        def f(st, key=key, old=old):
            new = X.heap_at_raw(st, key)
            return z3.And([z3.ForAll([l], z3.Implies(z3.And([l < ctx.entry.nxt] + [l != o for o in own]), z3.Select(a, l) == z3.Select(b, l)), patterns=[z3.Select(a, l)]) for a, b in zip(new, old)])
        out.append(('objects other than the built ones keep %s' % (key,), f))
        for n, o in enumerate(own):
            out.append(('built node %d keeps %s' % (n, key), lambda st, key=key, old=old, o=o: z3.And([X.sel(a, o) == X.sel(b, o) for a, b in zip(X.heap_at_raw(st, key), old)])))
    if 'frozen' in ctx.entry.ghost:
        out.append(('finished copies are newer than the loop', lambda st: z3.ForAll([l], z3.Implies(frozen(X, l, st), z3.And(z3.Or(l >= ctx.entry.nxt, frozen(X, l, ctx.entry)), l < st.nxt)), patterns=[frozen(X, l, st)])))
    return out


def build_invs(X, src, start):
    """invariants of loops that build a node from the children of src, one per iteration: built node c
    holds copies of the children visited so far"""
    def gen(ctx):
        out = []
        nodes = node_cells(X, ctx)
        own = [n for n in nodes if not n.eq(src)]
        out += frame_invs(X, ctx, own, start)
        for n, c in enumerate(own):
            out.append(('children of built node %d are finished copies' % n, lambda st, c=c: children(X, c, lambda x: z3.And(frozen(X, x, st), x >= start.nxt, x < st.nxt, dynof(X, x, st) == X.clsids[RAW]), st)))
            for pn, pos in positions(ctx):
                def lf(st, c=c, pos=pos):
                    i = z3.Const('i!bi', Int)
                    L, M = lst(X, c, st), lst(X, src, start)
                    return z3.And(L.t == pos(st), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < L.t), A(z3.Select(L.c[1], i)) == A(z3.Select(M.c[1], i))), patterns=[z3.Select(L.c[1], i)]))

                def df(st, c=c, pos=pos):
                    k = z3.Const('k!bi', X.STR.sorts[0])
                    D, M = dic(X, c, st), dic(X, src, start)
                    return z3.ForAll([k], z3.And(z3.Select(D.c[0], k) == z3.And(z3.Select(M.c[0], k), X.idxof(M.c[0], k) < pos(st)),
                                                 z3.Implies(z3.Select(D.c[0], k), A(z3.Select(D.c[1], k)) == A(z3.Select(M.c[1], k)))), patterns=[z3.Select(D.c[0], k), z3.Select(D.c[1], k)])
                out.append(('list of built node %d holds copies up to %s' % (n, pn), lf))
                out.append(('dictionary of built node %d holds copies up to %s' % (n, pn), df))
        return out
    return gen
