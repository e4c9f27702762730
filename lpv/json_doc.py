"""Trusted contracts of the JSON library: an abstract document.  A document node j (0 is JSON null) has a
type, a value, items (arrays) or keys and their values (objects); the library functions yield these parts."""
from tree import *

TRUSTED = ['json-c: a parse yields a finite document tree whose nodes have one of the seven types; the accessors yield the value, the items in order, and the keys and their values of a node; keys of one object differ and texts are NUL-terminated']
TYPES = ['null', 'boolean', 'double', 'int', 'object', 'array', 'string']
U32 = Sh('int', [Int], w=32, sg=False)
JT = z3.Function('json.tree', Int, Int)          # the tree a document node maps to
_f = lambda n, *s: z3.Function('json.' + n, *s)
ty, jint, jlen, jitem, count, entry, etab, eidx = [_f(n, Int, Int) if n not in ('item', 'entry') else _f(n, Int, Int, Int) for n in ('type', 'int', 'len', 'item', 'count', 'entry', 'table_of', 'index_of')]
jbool = _f('bool', Int, Bool)
keyp, valp = _f('keyptr', Int, Int, Int), _f('value', Int, Int, Int)


class Json:
    def __init__(self, X):
        self.X = X
        S = X.S.sort
        self.dbl = _f('double', Int, DBL.sorts[0])
        self.text = _f('text', Int, S)           # text a character pointer points to
        self.strp = _f('strptr', Int, Int)
        self.kidx = _f('keyindex', Int, S, Int)  # position of a key in an object
        self.T = {n: z3.IntVal(enum(X.prog, 'json_type', 'json_type_' + n)) for n in TYPES}
        X.hooks['mem_cstr'] = lambda X, v: self.cstr(v)
        X.ext.setdefault('lh_table', [('head', Sh('ptr', [Int]))])
        X.lib.ext.update({k: (lambda X, f, this, a, fr, e, h=h: h(f, [X.val(x) for x in a])) for k, h in {
            'json_object_get_type': lambda f, a: self.ret(f, ty(a[0].t)),
            'json_object_is_type': lambda f, a: V(INT, [z3.If(ty(a[0].t) == a[1].t, z3.IntVal(1), z3.IntVal(0))]),
            'json_object_get_boolean': lambda f, a: V(INT, [z3.If(jbool(a[0].t), z3.IntVal(1), z3.IntVal(0))]),
            'json_object_get_int': lambda f, a: V(INT, [self.i32(a[0].t)]),
            'json_object_get_int64': lambda f, a: self.ret(f, self.i64(a[0].t)),
            'json_object_get_double': lambda f, a: self.ret(f, self.dbl(a[0].t)),
            'json_object_get_string': self.string,
            'json_object_get_string_len': lambda f, a: V(INT, [X.S.len(self.jstr(a[0].t))]),
            'json_object_array_length': self.length,
            'json_object_array_get_idx': self.item,
            'json_object_get_object': self.object,
            'json_object_object_length': lambda f, a: V(INT, [self.n(a[0].t)]),
            'lh_table_head': lambda f, a: self.ret(f, self.nth(a[0].t, z3.IntVal(0))),
            'lh_table_length': lambda f, a: V(INT, [self.n(a[0].t)]),
            'lh_entry_next': lambda f, a: self.ret(f, self.nth(etab(self.live(a[0].t)), eidx(a[0].t) + 1)),
            'lh_entry_k': lambda f, a: V(Sh('mptr', [Int, Int]), [self.key(a[0].t), z3.IntVal(0)]),
            'lh_entry_v': lambda f, a: V(Sh('ptr', [Int]), [self.value(a[0].t)]),
        }.items()})

    def ret(self, f, t):
        return V(self.X.shape(f.ret), [t])

    def axioms(self):
        """facts about every document"""
        X = self.X
        j, i = z3.Const('j!js', Int), z3.Const('i!js', Int)
        k = z3.Const('k!js', X.S.sort)
        X.assume(ty(0) == self.T['null'])
        X.assume(z3.ForAll([j], z3.Or([ty(j) == t for t in self.T.values()]), patterns=[ty(j)]))
        X.assume(z3.ForAll([j], z3.And(jlen(j) >= 0), patterns=[jlen(j)]))
        X.assume(z3.ForAll([j], z3.And(count(j) >= 0), patterns=[count(j)]))
        X.assume(z3.ForAll([j, i], z3.And(entry(j, i) > 0, etab(entry(j, i)) == j, eidx(entry(j, i)) == i), patterns=[entry(j, i)]))
        X.assume(z3.ForAll([j, i], z3.And(keyp(j, i) > 0, z3.Implies(z3.And(i >= 0, i < count(j)), self.kidx(j, self.text(keyp(j, i))) == i)), patterns=[keyp(j, i)]))

    def cstr(self, v):
        if not z3.is_int_value(z3.simplify(v.c[1])) or z3.simplify(v.c[1]).as_long() != 0:
            raise Unsupported('pointer into a JSON text')
        t = self.text(v.t)
        self.X.assume(self.X.S.nonul(t))
        return t

    def i32(self, j):
        t = jint(j)
        self.X.assume(z3.And(t >= -(1 << 31), t < 1 << 31))
        return t

    def i64(self, j):
        t = _f('int64', Int, Int)(j)
        self.X.assume(z3.And(t >= -(1 << 63), t < 1 << 63))
        self.X.assume(z3.Implies(z3.And(t >= -(1 << 31), t < 1 << 31), jint(j) == t))
        return t

    def jstr(self, j):
        return self.text(self.strp(j))

    def string(self, f, a):
        X = self.X
        X.check('only text is read as text', ty(a[0].t) == self.T['string'])
        X.assume(self.strp(a[0].t) > 0)
        X.assume(X.S.nonul(self.jstr(a[0].t)))
        return V(Sh('mptr', [Int, Int]), [self.strp(a[0].t), z3.IntVal(0)])

    def length(self, f, a):
        X = self.X
        X.check('the length is taken of an array', ty(a[0].t) == self.T['array'])
        X.assume(z3.And(jlen(a[0].t) >= 0, jlen(a[0].t) < 1 << 48))
        return self.ret(f, jlen(a[0].t))

    def item(self, f, a):
        X = self.X
        j, i = a[0].t, a[1].t
        X.check('an item is taken of an array', ty(j) == self.T['array'])
        return self.ret(f, z3.If(z3.And(i >= 0, i < jlen(j)), jitem(j, i), z3.IntVal(0)))

    def object(self, f, a):
        self.X.check('the keys are taken of an object', ty(a[0].t) == self.T['object'])
        return self.ret(f, a[0].t)

    def n(self, t):
        self.X.assume(z3.And(count(t) >= 0, count(t) < 1 << 31))
        return count(t)

    def nth(self, t, i):
        e = entry(t, i)
        self.X.assume(z3.And(e > 0, etab(e) == t, eidx(e) == i))
        return z3.If(i < self.n(t), e, z3.IntVal(0))

    def live(self, e):
        self.X.check('the entry exists', e != 0)
        return e

    def key(self, e):
        self.live(e)
        t, i = etab(e), eidx(e)
        p = keyp(t, i)
        self.X.assume(p > 0)
        self.X.assume(self.X.S.nonul(self.text(p)))
        return p

    def value(self, e):
        self.live(e)
        return valp(etab(e), eidx(e))

    # ---------------------------------------------------------------- the mapping
    def maps(self, n, j, st=None, upto=None):
        """node n holds what document node j maps to (children by their trees)"""
        X, R, T = self.X, self.X.R, self.T
        K, v = kind(X, n, st), value(X, n, st)

        def val(cls, t):
            return z3.And(K == R.V, is_data(X, cls, v, st), data_content(X, cls, v, st) == t)
        t = ty(j)
        return z3.And(z3.Implies(t == T['null'], K == R.E),
                      z3.Implies(t == T['boolean'], val('bool', jbool(j))),
                      z3.Implies(t == T['int'], val('int', jint(j))),
                      z3.Implies(t == T['double'], val('double', self.dbl(j))),
                      z3.Implies(t == T['string'], val('std::string', self.jstr(j))),
                      z3.Implies(t == T['array'], self.items(n, j, jlen(j), st)),
                      z3.Implies(t == T['object'], self.keys(n, j, count(j), st)))

    def items(self, n, j, upto, st=None):
        X, R = self.X, self.X.R
        i = z3.Const('i!ji', Int)
        L = lst(X, n, st)
        return z3.And(kind(X, n, st) == z3.If(upto == 0, R.E, R.L), L.t == upto,
                      z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < L.t), A(z3.Select(L.c[1], i)) == JT(jitem(j, i))), patterns=[z3.Select(L.c[1], i)]))

    def keys(self, n, j, upto, st=None):
        X, R = self.X, self.X.R
        k = z3.Const('k!ji', X.S.sort)
        D = dic(X, n, st)
        p = self.kidx(j, k)
        has = z3.And(p >= 0, p < upto, self.text(keyp(j, p)) == k)
        return z3.And(kind(X, n, st) == z3.If(upto == 0, R.E, R.D),
                      z3.ForAll([k], z3.And(z3.Select(D.c[0], k) == has, z3.Implies(has, A(z3.Select(D.c[1], k)) == JT(valp(j, p)))), patterns=[z3.Select(D.c[0], k), z3.Select(D.c[1], k)]))
