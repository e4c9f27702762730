"""Sorts, value shapes and string theories used by the verification condition generator."""
import z3

z3.set_param('warning', False)
_forall = z3.ForAll


def _safe_forall(vs, body, patterns=[], **kw):
    """patterns are hints: drop them where z3 rejects them"""
    if patterns:
        try:
            return _forall(vs, body, patterns=patterns, **kw)
        except z3.Z3Exception:
            pass
    return _forall(vs, body, **kw)


if not getattr(z3, 'lpv_safe', False):
    z3.ForAll, z3.lpv_safe = _safe_forall, True

Int, Bool = z3.IntSort(), z3.BoolSort()
Dbl = z3.DeclareSort('Dbl')
OStr = z3.DeclareSort('OStr')


class Unsupported(Exception):
    pass


class StrZ3:
    """strings as z3 sequences: every string operation is exact"""
    name = 'z3seq'
    sort = z3.StringSort()

    def lit(self, b):
        return z3.StringVal(''.join(chr(x) for x in b))

    def concat(self, a, b):
        return z3.Concat(a, b)

    def len(self, a):
        return z3.Length(a)

    def facts(self, a):
        if z3.is_string_value(a):
            return []
        return [z3.Length(a) <= 1 << 62]     # std::string never exceeds max_size()

    def substr(self, s, p, n):
        return z3.SubString(s, p, n)

    def char(self, s, i):
        c = z3.StrToCode(z3.SubString(s, i, 1))
        return c

    def fromchar(self, c):
        c = z3.simplify(c)
        return z3.StrFromCode(z3.If(c < 0, c + 256, c)) if not z3.is_int_value(c) else z3.StringVal(chr(c.as_long() % 256))

    def lt(self, a, b):
        return a < b

    def find(self, s, pat, start):
        return z3.IndexOf(s, pat, start)

    def rfind_facts(self, s, pat, r):
        """r is the last position of the one-character string pat, or -1"""
        n = z3.Length(s)
        return [z3.Or(z3.And(r == -1, z3.Not(z3.Contains(s, pat))),
                      z3.And(r >= 0, r < n, z3.SubString(s, r, 1) == pat,
                             z3.Not(z3.Contains(z3.SubString(s, r + 1, n - r - 1), pat))))]

    def contains(self, s, p):
        return z3.Contains(s, p)

    def nonul(self, s):
        return z3.Not(z3.Contains(s, z3.StringVal('\\u{0}')))

    def nulfree(self, s):
        """syntactic: digits, literals without NUL and their concatenations and parts"""
        if z3.is_string_value(s):
            return '\\u{0}' not in s.as_string() and '\0' not in s.as_string()
        k = s.decl().kind()
        if k == z3.Z3_OP_SEQ_CONCAT:
            return all(self.nulfree(x) for x in s.children())
        if k == z3.Z3_OP_SEQ_EXTRACT:
            return self.nulfree(s.arg(0))
        return s.decl().name() in ('itoa10', 'itoa16')

    def cstr(self, s):
        """the text a C string function sees"""
        if self.nulfree(s):
            return s
        nul = z3.StringVal('\\u{0}')
        return z3.If(z3.Contains(s, nul), z3.SubString(s, 0, z3.IndexOf(s, nul, 0)), s)


class StrOpaque:
    """strings as an uninterpreted sort: only equality, concatenation and length are known"""
    name = 'opaque'
    sort = OStr
    _len = z3.Function('ostr_len', OStr, Int)
    _cat = z3.Function('ostr_cat', OStr, OStr, OStr)
    _sub = z3.Function('ostr_sub', OStr, Int, Int, OStr)
    _chr = z3.Function('ostr_chr', OStr, Int, Int)
    _fch = z3.Function('ostr_fromchar', Int, OStr)
    _lt = z3.Function('ostr_lt', OStr, OStr, Bool)
    _find = z3.Function('ostr_find', OStr, OStr, Int, Int)
    _cstr = z3.Function('ostr_cstr', OStr, OStr)
    _code = z3.Function('ostr_code', OStr, Int)
    lits = {}

    def lit(self, b):
        b = bytes(b)
        if b not in self.lits:
            self.lits[b] = z3.Const('lit!%d!%s' % (len(self.lits), ''.join(chr(x) if 32 < x < 127 and chr(x) not in '|\\' else '_' for x in b)[:30]), OStr)
        return self.lits[b]

    def is_lit(self, t):
        return any(c.eq(t) for c in self.lits.values())

    def litfacts(self):
        fs = []
        for b, c in self.lits.items():
            fs.append(self._len(c) == len(b))
        if len(self.lits) > 1:
            fs.append(z3.Distinct(*self.lits.values()))
        return fs

    def concat(self, a, b):
        e = self.lits.get(b'')
        if e is not None:
            if a.eq(e):
                return b
            if b.eq(e):
                return a
        # left-nested normal form with adjacent literals joined
        if b.decl().eq(self._cat):
            return self.concat(self.concat(a, b.arg(0)), b.arg(1))
        inv = {c.get_id(): k for k, c in self.lits.items()}
        if b.get_id() in inv:
            if a.get_id() in inv:
                return self.lit(inv[a.get_id()] + inv[b.get_id()])
            if a.decl().eq(self._cat) and a.arg(1).get_id() in inv:
                return self._cat(a.arg(0), self.lit(inv[a.arg(1).get_id()] + inv[b.get_id()]))
        return self._cat(a, b)

    def len(self, a):
        return self._len(a)

    def facts(self, a):
        r = [self._len(a) >= 0, (self._len(a) == 0) == (a == self.lit(b''))]
        return r

    def substr(self, s, p, n):
        return self._sub(s, p, n)

    def char(self, s, i):
        return self._chr(s, i)

    def fromchar(self, c):
        c = z3.simplify(c)
        if z3.is_int_value(c):
            return self.lit(bytes([c.as_long() % 256]))
        return self._fch(c)

    def lt(self, a, b):
        return self._lt(a, b)

    def find(self, s, p, st):
        return self._find(s, p, st)

    def rfind_facts(self, s, pat, r):
        return [r >= -1, r < self._len(s)]

    def contains(self, s, p):
        return self._find(s, p, z3.IntVal(0)) >= 0

    def nonul(self, s):
        return self._cstr(s) == s

    def cstr(self, s):
        for c in self.lits.values():
            if c.eq(s):
                return s
        return self._cstr(s)


class Sh:
    """shape of a value: which SMT terms represent it"""
    __slots__ = ('k', 'a', 'b', 'cls', 'fields', 'sorts', 'ty', 'w', 'sg', 'offs')

    def __init__(self, k, sorts, a=None, b=None, cls=None, fields=None, ty=None, w=0, sg=True):
        self.k, self.sorts, self.a, self.b, self.cls, self.fields, self.ty, self.w, self.sg = k, tuple(sorts), a, b, cls, fields, ty, w, sg
        self.offs = None
        if fields is not None:
            self.offs, o = {}, 0
            for c, f, s in fields:
                self.offs[(c, f)] = (o, s)
                o += len(s.sorts)

    @property
    def n(self):
        return len(self.sorts)

    def __repr__(self):
        return 'Sh(%s%s)' % (self.k, ':' + self.cls if self.cls else '')


def arr(i, s):
    return z3.ArraySort(i, s)


def seq_shape(e):
    return Sh('seq', [Int] + [arr(Int, s) for s in e.sorts], a=e)


def map_shape(k, v):
    assert k.n == 1
    ks = k.sorts[0]
    return Sh('map', [arr(ks, Bool)] + [arr(ks, s) for s in v.sorts], a=k, b=v)


def pair_shape(a, b):
    return Sh('pair', a.sorts + b.sorts, a=a, b=b)


UNIT = Sh('unit', [])
BOOL = Sh('bool', [Bool])
DBL = Sh('dbl', [Dbl])
FN = Sh('fn', [Int])
INT = Sh('int', [Int], w=32, sg=True)
SIZE = Sh('int', [Int], w=64, sg=False)
LONG = Sh('int', [Int], w=64, sg=True)
PTR = Sh('ptr', [Int])
MPTR = Sh('mptr', [Int, Int])


class V:
    """a value: shape and one SMT term per component"""
    __slots__ = ('s', 'c')

    def __init__(self, s, c):
        self.s = s
        self.c = tuple(c)

    @property
    def t(self):
        return self.c[0]

    def __repr__(self):
        return 'V(%s,%s)' % (self.s, ','.join(str(x)[:60] for x in self.c))


def ids(v):
    return tuple(x.get_id() for x in v.c)
