"""Trusted contracts of FlatBuffers: finished strings, vectors and tables are immutable objects named by their
offset; reading one back yields what was put in.  The generated schema code itself is verified, not trusted."""
from tree import *
from prog import tstr

TRUSTED = ['FlatBufferBuilder and the read accessors of Table, Vector and String: a finished buffer reads back as the strings, vectors and table fields put in; a scalar field equal to its default is left out; buffers stay below 2 GB',
           'RawBytes holds the bytes it was made from (P15)']
U8, U32 = Sh('int', [Int], w=8, sg=False), Sh('int', [Int], w=32, sg=False)
T = z3.Function('fb.tree', Int, Int)            # the tree a finished table encodes
_f = lambda n, *s: z3.Function('fb.' + n, *s)
has, fint, foff = _f('has', Int, Int, Bool), _f('int', Int, Int, Int), _f('off', Int, Int, Int)
fdbl = _f('dbl', Int, Int, DBL.sorts[0])
vlen, vitem = _f('vlen', Int, Int), _f('vitem', Int, Int, Int)
rootof = _f('root_of', Int, Int)
bytes_size = _f('size_of', Int, Int)             # the size of the block at an address
B = 'flatbuffers::FlatBufferBuilder::'
RB = 'lp::data::RawBytes'


def raw_size(X, b):
    return X.hread('$raw', 'size', b, INT).t


class Fb:
    def __init__(self, X):
        self.X = X
        self.text = _f('text', Int, X.STR.sorts[0])
        self.vts = set()
        for tu in X.prog.tus:
            for t in tu.types:
                if t.k == 'enum' and t.n.endswith('::FlatBuffersVTableOffset') and t.consts:
                    self.vts |= set(t.consts.values())
        h = {B + 'CreateString': self.create_string, B + 'CreateSharedString': self.create_string, B + 'CreateVector': self.create_vector,
             B + 'StartTable': self.start, B + 'EndTable': self.end, B + 'AddElement': self.add, B + 'AddOffset': self.add_offset, B + 'Finish': self.finish,
             B + 'GetBufferPointer': self.pointer, B + 'GetSize': self.size,
             'flatbuffers::Table::GetField': self.get_field, 'flatbuffers::Table::GetPointer': self.get_pointer,
             'flatbuffers::GetRoot': self.root, 'flatbuffers::GetMutableRoot': self.root,
             'flatbuffers::Vector::size': self.vec_size, 'flatbuffers::Vector::Length': self.vec_size, 'flatbuffers::Vector::Get': self.item, 'flatbuffers::Vector::operator[]': self.item,
             'flatbuffers::Vector::GetAsString': self.item,
             'flatbuffers::String::str': lambda f, this, a: X.lib.str(self.text(self.obj(this))),
             'flatbuffers::String::c_str': lambda f, this, a: E.CStr(self.text(self.obj(this)), None),
             'flatbuffers::AlignOf': lambda f, this, a: V(SIZE, [z3.IntVal(8)]),
             'flatbuffers::Offset::IsNull': lambda f, this, a: V(BOOL, [X.val(this).t == 0])}
        X.lib.ext.update({k: (lambda X, f, this, a, fr, e, g=g: g(f, this, a)) for k, g in h.items()})
        X.lib.ext['ctor flatbuffers::FlatBufferBuilder'] = lambda X, fn, ty, a: self.begin() or V(X.shape(ty), [])
        X.lib.ext['ctor flatbuffers::Verifier'] = lambda X, fn, ty, a: self.verifier([X.val(x) for x in a]) or V(X.shape(ty), [])
        X.lib.ext['flatbuffers::Verifier::VerifyBuffer'] = lambda X, f, this, a, fr, e: V(BOOL, [self.verify_buffer(template_arg(f))])
        X.lib.ext['ctor flatbuffers::Offset'] = lambda X, fn, ty, a: V(INT, [X.val(a[0]).t if a else z3.IntVal(0)])

    def reset(self):
        g = self.X.st.ghost
        g['fb.open'] = ()          # fields added to the table under construction
        g['fb.nested'] = False
        g['fb.root'] = None
        g['fb.verifier'] = None

    def begin(self):
        if self.X.st.ghost.get('fb.busy'):
            raise Unsupported('two builders')
        self.X.st.ghost['fb.busy'] = True

    def obj(self, x):
        t = x.loc if isinstance(x, (ObjLV, HeapLV)) else x.t if isinstance(x, V) else None
        if t is None:
            raise Unsupported('FlatBuffers object %r' % (x,))
        self.X.check('a read FlatBuffers object exists', t > 0)
        return t

    def fresh(self, what):
        X = self.X
        o = X.fresh(Int, what)
        X.assume(z3.And(o > 0, o < 1 << 31))
        return o

    def flat(self, what):
        self.X.check(what + ' is not built inside a table', z3.BoolVal(not self.X.st.ghost['fb.nested']))

    def create_string(self, f, this, a):
        X = self.X
        self.flat('text')
        s = X.val(a[0])
        if isinstance(s, E.CStr):
            t = s.t if len(a) > 1 else X.S.cstr(s.t)
            if len(a) > 1:
                X.check('all of the text is written', X.val(a[1]).t == X.S.len(s.t))
        else:
            t = X.lib.sv(s)
        o = self.fresh('text')
        X.assume(self.text(o) == t)
        return V(INT, [o])

    def create_vector(self, f, this, a):
        X = self.X
        self.flat('a vector')
        v = X.val(a[0])
        if not isinstance(v, V) or v.s.k != 'seq' or v.s.a.k != 'int':
            raise Unsupported('vector of %r' % (v,))
        o = self.fresh('vec')
        i = z3.Const('i!fv', Int)
        X.assume(vlen(o) == v.t)
        X.assume(z3.ForAll([i], vitem(o, i) == z3.Select(v.c[1], i), patterns=[vitem(o, i)]))
        return V(INT, [o])

    def start(self, f, this, a):
        self.flat('a table')
        g = self.X.st.ghost
        g['fb.nested'], g['fb.open'] = True, ()
        return V(U32, [z3.IntVal(0)])

    def put(self, fld, kind, v, here):
        g = self.X.st.ghost
        if not g['fb.nested']:
            self.X.check('fields are added to a table under construction', z3.BoolVal(False))
        fld = z3.simplify(self.X.val(fld).t)
        if not z3.is_int_value(fld):
            raise Unsupported('symbolic field')
        g['fb.open'] = g['fb.open'] + ((fld.as_long(), kind, v, here),)

    def add(self, f, this, a):
        v, d = self.X.val(a[1]), self.X.val(a[2]) if len(a) > 2 else None
        if v.s.k == 'dbl':
            self.put(a[0], 'dbl', v.t, z3.Not(self.X.dpred('==', v.t, d.t)) if d is not None else z3.BoolVal(True))
        elif v.s.k == 'int':
            self.put(a[0], 'int', v.t, v.t != d.t if d is not None else z3.BoolVal(True))
        else:
            raise Unsupported('field of shape ' + v.s.k)
        return V(UNIT, [])

    def add_offset(self, f, this, a):
        v = self.X.val(a[1]).t
        self.put(a[0], 'off', v, v != 0)
        return V(UNIT, [])

    def end(self, f, this, a):
        X = self.X
        g = X.st.ghost
        X.check('a finished table was begun', z3.BoolVal(g['fb.nested']))
        o = self.fresh('table')
        seen = set()
        for fld, kind, v, here in reversed(g['fb.open']):
            if fld in seen:
                raise Unsupported('field added twice')
            seen.add(fld)
            X.assume(has(o, fld) == here)
            X.assume({'int': fint, 'dbl': fdbl, 'off': foff}[kind](o, fld) == v)
        for x in self.vts - seen:
            X.assume(z3.Not(has(o, x)))
        g['fb.nested'], g['fb.open'] = False, ()
        return V(U32, [o])

    def finish(self, f, this, a):
        self.flat('the root')
        self.X.check('the buffer is finished once', z3.BoolVal(self.X.st.ghost['fb.root'] is None))
        self.X.st.ghost['fb.root'] = self.X.val(a[0]).t
        return V(UNIT, [])

    def pointer(self, f, this, a):
        X = self.X
        if X.st.ghost['fb.root'] is None:
            X.check('only a finished buffer is read', z3.BoolVal(False))
        return V(Sh('mptr', [Int, Int]), [z3.Const('fb.buffer', Int), z3.IntVal(0)])

    def size(self, f, this, a):
        return V(U32, [z3.Const('fb.size', Int)])

    def get_field(self, f, this, a):
        X = self.X
        o, fld, d = self.obj(this), X.val(a[0]).t, X.val(a[1])
        if d.s.k == 'dbl':
            return V(d.s, [z3.If(has(o, fld), fdbl(o, fld), d.t)])
        s = X.shape(f.ret)
        v = V(s, [z3.If(has(o, fld), fint(o, fld), d.t)])
        lo, hi = X.rng(s)
        X.assume(z3.And(v.t >= lo, v.t <= hi))
        return v

    def get_pointer(self, f, this, a):
        X = self.X
        o, fld = self.obj(this), X.val(a[0]).t
        return V(X.shape(f.ret), [z3.If(has(o, fld), foff(o, fld), z3.IntVal(0))])

    def root(self, f, this, a):
        p = self.X.val(a[0])
        return V(self.X.shape(f.ret), [rootof(p.t)])

    def verifier(self, a):
        X = self.X
        if self.X.st.ghost.get('fb.verifier'):
            raise Unsupported('two verifiers')
        if len(a) < 2 or any(x.s.k != 'int' for x in a[1:4]):
            raise Unsupported('construction of a verifier')
        self.X.st.ghost['fb.verifier'] = (a[0].c[0], a[1].t, a[2].t if len(a) > 2 else z3.IntVal(64), a[3].t if len(a) > 3 else z3.IntVal(1000000))
        X.check('verified buffers stay below 2 GB', z3.And(a[1].t >= 0, a[1].t < (1 << 31) - 1))

    def verify_buffer(self, cls):
        """a finished buffer is accepted as a whole when the limits allow for every table in it"""
        X = self.X
        p, n, depth, tables = X.st.ghost['fb.verifier']
        r = X.fresh(Bool, 'verified')
        whole = z3.And(rootof(p) > 0, n == bytes_size(p), depth >= n, tables >= n)
        X.assume(z3.Implies(z3.And(whole, z3.BoolVal(cls == 'lp::schemas::FBMessage')), r))
        return r

    def vec_size(self, f, this, a):
        v = self.obj(this)
        self.X.assume(z3.And(vlen(v) >= 0, vlen(v) < 1 << 31))
        return V(U32, [vlen(v)])

    def item(self, f, this, a):
        X = self.X
        v, i = self.obj(this), X.val(a[0]).t
        X.check('an item read from a vector exists', z3.And(i >= 0, i < vlen(v)))
        r = vitem(v, i)
        return V(X.shape(f.ret), [r])

    # ---------------------------------------------------------------- reading through the generated accessors
    def acc(self, table, o, name):
        X = self.X
        fn = the(X.prog, table + '::' + name, 0)
        X.ghosting += 1
        try:
            v = X.val(X.inline(fn, ObjLV(o, table, X.struct_shape(table)), [])).t
            r = X.fresh(v.sort(), name)
            X.assume(r == v)
            return r
        finally:
            X.ghosting -= 1

    def encodes(self, o, n, st):
        """table o holds node n (in state st); children by their trees"""
        X, R = self.X, self.X.R
        t = 'lp::schemas::FBDatagram'
        g = {a: self.acc(t, o, a) for a in ('datagram_type', 'value_type', 'string_content', 'integer_content', 'double_content', 'boolean_content', 'list_content', 'dictionary_keys', 'dictionary_contents')}
        dt = lambda x: g['datagram_type'] == enum(X.prog, 'lp::schemas::DatagramType', 'DatagramType_' + x)
        vt = lambda x: g['value_type'] == enum(X.prog, 'lp::schemas::ValueType', 'ValueType_' + x)
        K, v, L, D = kind(X, n, st), value(X, n, st), lst(X, n, st), dic(X, n, st)
        i = z3.Const('i!en', Int)
        c = lambda T_: data_content(X, T_, v, st)
        lc, ks, cs = g['list_content'], g['dictionary_keys'], g['dictionary_contents']
        D0, Dv = D.c
        k = X.keyat(D0, i)
        vals = z3.And(dt('Value'),
                      z3.Implies(is_data(X, 'std::string', v, st), z3.And(vt('String'), g['string_content'] > 0, self.text(g['string_content']) == c('std::string'))),
                      z3.Implies(is_data(X, 'int', v, st), z3.And(vt('Integer'), g['integer_content'] == c('int'))),
                      z3.Implies(is_data(X, 'double', v, st), z3.And(vt('Double'), z3.Or(g['double_content'] == c('double'), X.dpred('==', g['double_content'], c('double'))))),
                      z3.Implies(is_data(X, 'bool', v, st), z3.And(vt('Boolean'), g['boolean_content'] == c('bool'))))
        items = z3.And(dt('List'), lc > 0, vlen(lc) == L.t, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < L.t), z3.And(vitem(lc, i) > 0, T(vitem(lc, i)) == A(z3.Select(L.c[1], i)))), patterns=[vitem(lc, i)]))
        ents = z3.And(dt('Dictionary'), ks > 0, cs > 0, vlen(ks) == X.card(D0), vlen(cs) == X.card(D0),
                      z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < X.card(D0)), z3.And(vitem(ks, i) > 0, self.text(vitem(ks, i)) == k)), patterns=[vitem(ks, i)]),
                      z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < X.card(D0)), z3.And(vitem(cs, i) > 0, T(vitem(cs, i)) == A(z3.Select(Dv, k)))), patterns=[vitem(cs, i)]))
        return [('an empty node', z3.Implies(K == R.E, dt('Empty'))), ('a value', z3.Implies(K == R.V, vals)), ('a list', z3.Implies(K == R.L, items)), ('a dictionary', z3.Implies(K == R.D, ents))]


def template_arg(f):
    if not f.targs:
        raise Unsupported('template argument of ' + f.n)
    return tstr(f.targs[0])


def raw_bytes(X):
    """contracts of the byte buffer: it holds the bytes it was made from"""
    def put(X, this, a):
        p, n = X.val(a[0]), X.val(a[1])
        X.check('the bytes sent are the finished buffer', z3.And(p.t == z3.Const('fb.buffer', Int), n.t == z3.Const('fb.size', Int)))
        root = X.st.ghost.get('fb.root')
        if root is None:
            raise Unsupported('bytes of an unfinished buffer')
        X.hwrite('$raw', 'root', this.loc, V(INT, [root]))

    def ctor(X, fn, this, a):
        if len(a) == 2:
            put(X, this, a)
        elif a:
            raise Unsupported('copy of raw bytes')
        else:
            X.hwrite('$raw', 'root', this.loc, V(INT, [z3.IntVal(0)]))
        return V(UNIT, [])

    def append(X, fn, this, a):
        X.check('the buffer is the whole content', X.hread('$raw', 'root', this.loc, INT).t == 0)
        put(X, this, a)
        return V(UNIT, [])

    def content(X, fn, this, a):
        p = X.fresh(Int, 'bytes')
        X.assume(p > 0)
        X.assume(rootof(p) == X.hread('$raw', 'root', this.loc, INT).t)
        X.assume(bytes_size(p) == raw_size(X, this.loc))
        return V(X.shape(fn.ret), [p, z3.IntVal(0)][:len(X.shape(fn.ret).sorts)])

    def size(X, fn, this, a):
        n = raw_size(X, this.loc)
        X.assume(z3.And(n > 0, n < (1 << 31) - 1))
        return V(X.shape(fn.ret), [n])
    return [Contract('RawBytes(content, size): holds the bytes (P15)', RB + '::RawBytes', ctor), Contract('RawBytes::Append (P15)', RB + '::Append', append),
            Contract('RawBytes::GetContent: the bytes held (P15)', RB + '::GetContent', content), Contract('RawBytes::GetSize: their number (P15)', RB + '::GetSize', size)]
