"""P05: path lookup yields the addressed value or the default.

Look_T(n, path, default) is the value the property describes, by recursion over the path:
  empty path        -> the value of node n if it is a T, else the default
  segment[/rest]    -> Look_T(n[segment], rest, default) if n is a dictionary with that key, else the default.
The body of RawDatagram::Get<T>(path, default) is verified against it with the recursive call replaced by the contract."""
from tree import *

ASSUMPTIONS = ['payloads are finite trees of live nodes (structural induction)']
TYPES = dict(SCALARS)


def look(X, T):
    s = X.shape_of[T]
    return z3.Function('Look<%s>' % T, Int, X.STR.sorts[0], s.sorts[0], s.sorts[0])


def unfold(X, T, n, path, d, st):
    S = X.S
    slash = z3.StringVal('/')
    at = z3.IndexOf(path, slash, 0)
    seg = z3.If(at < 0, path, z3.SubString(path, 0, at))
    rest = z3.If(at < 0, z3.StringVal(''), z3.SubString(path, at + 1, z3.Length(path) - at - 1))
    D = dic(X, n, st)
    v = value(X, n, st)
    leaf = z3.If(z3.And(kind(X, n, st) == X.R.V, is_data(X, T, v, st)), data_content(X, T, v, st), d)
    return z3.If(path == z3.StringVal(''), leaf, z3.If(z3.And(kind(X, n, st) == X.R.D, z3.Select(D.c[0], seg)), look(X, T)(z3.Select(D.c[1], seg), rest, d), d))


def setup(prog, T):
    X = engine(prog, StrZ3())
    X.shape_of = {}
    fn = the(prog, RAW + '::Get<%s>' % T, 2)
    X.shape_of[T] = X.shape(fn.pt[1])

    def apply(X, f, this, a):
        if not isinstance(this, ObjLV):
            raise Unsupported('lookup in a node that is no object')
        X.check('the node looked into is alive', z3.And(this.loc > 0, this.loc < X.st.nxt))
        X.check('the node looked into is a node', dynof(X, this.loc) == X.clsids[RAW])
        p = X.lib.sv(X.val(a[0]))
        v = V(X.shape_of[T], [look(X, T)(this.loc, p, X.val(a[1]).t)])
        return v
    X.contracts.insert(0, Contract('RawDatagram::Get<T>(path, default): Look<T>', RAW + '::Get<%s>' % T, None))
    X.contracts[0]._m = lambda f: sig0(f) == RAW + '::Get<%s>' % T and len(f.pt) == 2
    X.contracts[0]._a = apply
    return X, fn


def raw_get(T):
    def run(prog):
        X, fn = setup(prog, T)

        def body():
            n = node(X)
            p = X.newsym(X.STR, 'path')
            X.note['path'] = p.t
            d = X.newsym(X.shape(fn.pt[1]), 'default')
            old = X.st.copy()
            r = invoke(X, fn, n, [p, d])
            X.check('path lookup never throws', r.kind == 'ok')
            if r.kind == 'ok':
                X.check('path lookup of %s yields the addressed value or the default' % T, X.val(r.v).t == unfold(X, T, n.loc, p.t, d.t, old))
            X.check('path lookup changes nothing', unchanged_content(X, old, n.loc))
        X.paths = verify(X, body)
        return X
    return Task('RawDatagram::Get<%s>(path, default)' % T, run)


def unchanged_content(X, old, n):
    return z3.And(same_node(X, n, old, X.st), unchanged(X, old))


def dg_get(name, T):
    def run(prog):
        X, fn0 = setup(prog, T)
        fn = the(prog, 'lpv::path' + name, 3)

        def body():
            n = node(X)
            p = X.newsym(X.STR, 'path')
            d = X.newsym(X.shape_of[T], 'default')
            h = datagram(X, n.loc)
            old = X.st.copy()
            r = invoke(X, fn, None, [h, p, d])
            X.check('path lookup never throws', r.kind == 'ok')
            if r.kind == 'ok':
                X.check('Datagram::Get<%s>(path, default) looks up in its node' % T, X.val(r.v).t == look(X, T)(n.loc, p.t, d.t))
            X.check('path lookup changes nothing', z3.And(unchanged_content(X, old, n.loc), X.val(h).c[0] == n.loc))
        X.paths = verify(X, body)
        return X
    return Task('Datagram::Get<%s>(path, default)' % T, run)


def tasks(prog):
    r = []
    for n, T in SCALARS.items():
        r += [raw_get(T), dg_get(n, T)]
    return r
