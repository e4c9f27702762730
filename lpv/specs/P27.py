"""P27: malformed wire bytes are rejected without harm.

What may be read in a byte block is a set of facts about the block (this table is sound, that field lies inside it,
that string ends in it ...).  Every read through the generated accessors requires the fact it depends on; the only
source of facts are the checks of the FlatBuffers verifier.  The generated Verify functions are verified: when they
accept a table, all its fields may be read.  With that contract, the two deserialisers are verified on an arbitrary
block: they read nothing that was not verified, accept only complete messages, and otherwise throw the documented
exception.  The receiving loop of the link is verified with arrivals of which any may be malformed."""
import re
from flat import *
import P01
import P02
import P23

MSG, DES = P01.MSG, P01.DES
SCH = 'lp::schemas::'
ERR = 'lp::exceptions::OperationFailedException'
ASSUMPTIONS = ['the nesting of a block fits the stack', 'the shared pointer to the bytes is not null', 'a block stays unchanged while it is read', 'link: as P23, but what arrives as a payload need not be a message']
TRUSTED = ['flatbuffers::Verifier: VerifyBuffer, VerifyTableStart, VerifyField, VerifyOffset, VerifyString, VerifyVector and friends return true only if what they check may be read within the block']
HARNESS_SOURCES, HARNESS_FLAGS = P23.HARNESS_SOURCES, P23.HARNESS_FLAGS
SIZES = {'int8_t': 1, 'uint8_t': 1, 'signed char': 1, 'unsigned char': 1, 'char': 1, 'bool': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'float': 4, 'double': 8, 'long': 8, 'unsigned long': 8}
_p = lambda n, *s: z3.Function('may.' + n, *s, Bool)
okT, okF, okO = _p('table', Int), _p('field', Int, Int, Int), _p('offset', Int, Int)
okS, okV, okB = _p('string', Int), _p('vector', Int), _p('block', Int)


def ver(cls):
    return z3.Function('accepted.' + cls, Int, Bool)


def forall_items(v, p):
    i = z3.Const('i!fi', Int)
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < vlen(v)), p(vitem(v, i))), patterns=[vitem(v, i)])


def element(t):
    """the element class of a pointer to a vector of offsets"""
    m = re.search(r'Vector<flatbuffers::Offset<([\w:]+)>', t)
    if not m:
        raise Unsupported('vector type ' + t)
    return m.group(1)


class Block(Fb):
    """FlatBuffers on a block that need not hold a message"""
    def __init__(self, X):
        Fb.__init__(self, X)
        self.facts = None
        E_ = X.lib.ext
        h = {'flatbuffers::Table::VerifyTableStart': self.table_start, 'flatbuffers::Table::VerifyField': self.verify_field, 'flatbuffers::Table::VerifyFieldRequired': self.verify_field,
             'flatbuffers::Table::VerifyOffset': self.verify_offset, 'flatbuffers::Table::VerifyOffsetRequired': self.verify_offset,
             'flatbuffers::Verifier::VerifyString': self.verify_string, 'flatbuffers::Verifier::VerifyVector': self.verify_vector,
             'flatbuffers::Verifier::VerifyVectorOfStrings': self.verify_strings, 'flatbuffers::Verifier::VerifyVectorOfTables': self.verify_tables,
             'flatbuffers::Verifier::VerifyTable': self.verify_table,
             'flatbuffers::Verifier::EndTable': lambda f, this, a: V(BOOL, [z3.BoolVal(True)]),
             'flatbuffers::String::str': self.string, 'flatbuffers::String::size': self.string_size, 'flatbuffers::String::Length': self.string_size,
             'flatbuffers::String::c_str': lambda f, this, a: E.CStr(self.X.lib.sv(self.string(f, this, a)), None)}
        E_.update({k: (lambda X, f, this, a, fr, e, g=g: g(f, this, a)) for k, g in h.items()})
        E_['flatbuffers::Vector::GetAsString'] = lambda X, f, this, a, fr, e: self.item(f, this, a)

    def need(self, what, c):
        """a read needs this fact; while facts are collected it is one of them"""
        if self.facts is None:
            self.X.check('only verified bytes are read: ' + what, c, tag='hard')
        else:
            self.facts.append(c)

    # ------------------------------------------------ checks of the verifier: true only if the fact holds
    def told(self, c):
        r = self.X.fresh(Bool, 'verified')
        self.X.assume(z3.Implies(r, c))
        return V(BOOL, [r])

    def table(self, this):
        o = self.obj(this)
        self.need('the table', okT(o))
        return o

    def table_start(self, f, this, a):
        return self.told(okT(self.obj(this)))

    def size_of(self, t):
        n = SIZES.get(t)
        if n is None:
            raise Unsupported('field of type ' + t)
        return z3.IntVal(n)

    def verify_field(self, f, this, a):
        return self.told(okF(self.table(this), self.X.val(a[1]).t, self.size_of(template_arg(f))))

    def verify_offset(self, f, this, a):
        return self.told(okO(self.table(this), self.X.val(a[1]).t))

    def ptr(self, a):
        return self.X.val(a).t

    def verify_string(self, f, this, a):
        p = self.ptr(a[0])
        return self.told(z3.Or(p == 0, okS(p)))

    def verify_vector(self, f, this, a):
        p = self.ptr(a[0])
        return self.told(z3.Or(p == 0, okV(p)))

    def verify_strings(self, f, this, a):
        p = self.ptr(a[0])
        self.need('the vector', z3.Or(p == 0, okV(p)))
        return self.told(z3.Or(p == 0, forall_items(p, okS)))

    def verify_tables(self, f, this, a):
        p = self.ptr(a[0])
        self.need('the vector', z3.Or(p == 0, okV(p)))
        return self.told(z3.Or(p == 0, forall_items(p, ver(template_arg(f)))))

    def verify_table(self, f, this, a):
        p = self.ptr(a[0])
        return self.told(z3.Or(p == 0, ver(template_arg(f))(p)))

    def verifier(self, a):
        X = self.X
        Fb.verifier(self, a)
        p, n, depth, tables = X.st.ghost['fb.verifier']
        X.check('the verifier looks at the block and not beyond it', z3.And(n <= X.blocksize, z3.Or(n == 0, p == X.block)), tag='hard')

    def verify_buffer(self, cls):
        p, n = self.X.st.ghost['fb.verifier'][:2]
        r = self.X.fresh(Bool, 'verified')
        self.X.assume(z3.Implies(r, z3.And(n > 0, okB(p), rootof(p) > 0, ver(cls)(rootof(p)))))
        return r

    # ------------------------------------------------ reads
    def root(self, f, this, a):
        p = self.X.val(a[0])
        self.need('the root of the block', okB(p.c[0]))
        return V(self.X.shape(f.ret), [rootof(p.c[0])])

    def get_field(self, f, this, a):
        o = self.table(this)
        self.need('a field', okF(o, self.X.val(a[0]).t, self.size_of(template_arg(f))))
        return Fb.get_field(self, f, this, a)

    def get_pointer(self, f, this, a):
        o = self.table(this)
        self.need('an offset', okO(o, self.X.val(a[0]).t))
        self.X.assume(z3.Implies(has(o, self.X.val(a[0]).t), foff(o, self.X.val(a[0]).t) > 0))
        return Fb.get_pointer(self, f, this, a)

    def string(self, f, this, a):
        s = self.obj(this)
        self.need('a text', okS(s))
        return self.X.lib.str(self.text(s))

    def string_size(self, f, this, a):
        s = self.obj(this)
        self.need('the length of a text', okS(s))
        return V(U32, [self.X.S.len(self.text(s))])

    def vec_size(self, f, this, a):
        self.need('the length of a vector', okV(self.obj(this)))
        return Fb.vec_size(self, f, this, a)

    def item(self, f, this, a):
        self.need('an item of a vector', okV(self.obj(this)))
        X = self.X
        r = Fb.item(self, f, this, a)
        X.assume(r.t > 0)
        return r

    def acc(self, table, o, name):
        """the field of a table, read for the specification"""
        saved, self.facts = self.facts, [] if self.facts is None else self.facts
        try:
            return Fb.acc(self, table, o, name)
        finally:
            self.facts = saved

    # ------------------------------------------------ what acceptance of a table stands for
    def readable(self, cls, o):
        """all fields of the table may be read, and what they point to"""
        X = self.X
        self.facts = []
        try:
            for fn in accessors(X.prog, cls):
                v = self.acc(cls, o, fn.n)
                t = fn.ret.s
                if fn.ret.k != 'ptr':
                    continue
                if 'Vector<' in t:
                    el = element(t)
                    c = z3.And(okV(v), forall_items(v, okS if el == 'flatbuffers::String' else ver(el)))
                elif 'flatbuffers::String' in t:
                    c = okS(v)
                else:
                    c = ver(strip_const(fn.ret.to.s))(v)
                self.facts.append(z3.Or(v == 0, c))
            return self.facts
        finally:
            self.facts = None


def accessors(prog, cls):
    out = [f for f in prog.defs.values() if f.cls is not None and strip_const(f.cls.s) == cls and not f.pt and f.body is not None and f.ret.k != 'void' and not f.ctor and not f.static]
    if not out:
        raise Unsupported('accessors of ' + cls)
    return sorted(out, key=lambda f: f.n)


def prepare(prog):
    X = engine(prog)
    F = Block(X)

    def des(X, fn, this, a):
        o = X.val(a[0]).t
        X.check('the table exists and was accepted', z3.And(o > 0, ver(SCH + 'FBDatagram')(o)), tag='hard')
        if X.branch(X.fresh(Bool, 'incomplete')):
            raise CxxThrow(ERR)
        n0, n1 = grow(X)
        r = fresh_node(X, n0, n1)
        X.assume(wf(X, r))
        freeze(X, n0, n1)
        X.assume(A(r) == T(o))
        return V(X.shape(fn.ret), [r])

    def content(X, fn, this, a):
        return V(X.shape(fn.ret), [X.block, z3.IntVal(0)][:len(X.shape(fn.ret).sorts)])
    X.contracts[:0] = [Contract('DeserializeFromStructure: a fresh node for an accepted table, or the documented exception; nothing else changes', DES, des), copy_contract(X),
                       Contract('RawBytes::GetContent: the block (P15)', RB + '::GetContent', content), Contract('RawBytes::GetSize: its size (P15)', RB + '::GetSize', lambda X, fn, this, a: V(X.shape(fn.ret), [X.blocksize]))]
    X.block, X.blocksize = z3.Const('block', Int), z3.Const('block.size', Int)
    write_guard(X)
    return X, F


def accept(cls):
    def run(prog):
        X, F = prepare(prog)
        fn = the(prog, cls + '::Verify', 1)

        def body():
            F.reset()
            o = X.fresh(Int, 'table')
            X.assume(o > 0)
            want = F.readable(cls, o)
            v = X.cell(V(UNIT, []), UNIT)
            r = invoke(X, fn, ObjLV(o, cls, X.struct_shape(cls)), [v])
            X.check('verifying never throws', r.kind == 'ok')
            if r.kind == 'ok':
                for i, c in enumerate(want):
                    X.check('an accepted table may be read', z3.Implies(X.val(r.v).t, c))
        X.paths = verify(X, body)
        return X
    return run


def structure(prog):
    X, F = prepare(prog)
    fn = the(prog, DES, 1)
    C = SCH + 'FBDatagram'
    X.invs.append(growing(X, X.st.copy()))

    def body():
        F.reset()
        no_frozen(X)
        o = X.fresh(Int, 'table')
        X.assume(z3.And(o > 0, ver(C)(o)))
        for c in F.readable(C, o):
            X.assume(c)
        old = X.st.copy()
        r = invoke(X, fn, None, [V(X.shape(fn.pt[0]), [o])])
        X.check('a table is rejected only with the documented exception', z3.BoolVal(r.kind == 'ok' or prog.is_sub(r.exc.typ, ERR)))
        X.check('reading a table changes nothing that existed', unchanged(X, old))
        if r.kind != 'ok':
            return
        m = X.val(r.v).t
        X.check('an accepted table yields a new node', z3.And(m >= old.nxt, m < X.st.nxt))
        X.check('an accepted table yields a well formed node', wf(X, m))
        g = {a: F.acc(C, o, a) for a in ('datagram_type', 'value_type', 'string_content', 'list_content', 'dictionary_keys', 'dictionary_contents')}
        dt = lambda x: g['datagram_type'] == enum(prog, SCH + 'DatagramType', 'DatagramType_' + x)
        vt = lambda x: g['value_type'] == enum(prog, SCH + 'ValueType', 'ValueType_' + x)
        X.check('a table of an unknown type is rejected', z3.Or([dt(x) for x in ('Empty', 'Value', 'List', 'Dictionary')]))
        X.check('a value of an unknown type is rejected', z3.Implies(dt('Value'), z3.Or([vt(x) for x in ('String', 'Integer', 'Double', 'Boolean')])))
        X.check('a text without content is rejected', z3.Implies(z3.And(dt('Value'), vt('String')), g['string_content'] > 0))
        X.check('a list without content is rejected', z3.Implies(dt('List'), g['list_content'] > 0))
        X.check('a dictionary without keys or contents is rejected', z3.Implies(dt('Dictionary'), z3.And(g['dictionary_keys'] > 0, g['dictionary_contents'] > 0)))
    X.paths = verify(X, body)
    return X


def growing(X, start):
    """while a container is read, it is a well formed new node and nothing else changes"""
    def gen(ctx):
        nodes = node_cells(X, ctx)
        out = frame_invs(X, ctx, nodes, start)
        for n, c in enumerate(nodes):
            out.append(('built node %d is well formed' % n, lambda st, c=c: z3.And(c >= start.nxt, wf(X, c, st))))
        return out
    return gen


def message(prog):
    X, F = prepare(prog)
    fn = the(prog, MSG + '::Deserialize', 1)
    C = SCH + 'FBMessage'

    def body():
        F.reset()
        no_frozen(X)
        b = sym_this(X, RB, 'bytes').loc
        p, n = X.block, X.blocksize
        X.assume(z3.And(n >= 0, n < 1 << 64, p >= 0, z3.Implies(n > 0, p > 0)))
        root = rootof(p)        # an address; whether there is anything is another matter
        X.assume(root > 0)
        want = F.readable(C, root)
        for c in want:
            X.assume(z3.Implies(ver(C)(root), c))
        ts, tt, td = P01.msg_table(F, root)
        old = X.st.copy()
        r = invoke(X, fn, None, [V(X.shape(fn.pt[0]), [b])])
        X.check('a block is rejected only with the documented exception', z3.BoolVal(r.kind == 'ok' or prog.is_sub(r.exc.typ, ERR)))
        X.check('reading a block changes nothing', unchanged(X, old))
        if r.kind != 'ok':
            return
        X.check('only verified blocks are accepted', z3.And(okB(p), root > 0, ver(C)(root)))
        X.check('a block without sender, topic or payload is rejected', z3.And(ts > 0, tt > 0, td > 0))
        (f1, f2), fd = P02.msg_fields(X)
        X.check('the message has the sender and topic in the block', z3.And(P02.mf(X, r.v, f1) == F.text(ts), P02.mf(X, r.v, f2) == F.text(tt)))
        X.check('the message has a payload', P02.mf(X, r.v, fd) > 0)
    X.paths = verify(X, body)
    return X


def tasks(prog):
    return [Task('FBDatagram::Verify', accept(SCH + 'FBDatagram')), Task('FBMessage::Verify', accept(SCH + 'FBMessage')), Task('RawDatagram::DeserializeFromStructure', structure),
            Task('Message::Deserialize', message), Task('Link::Run', P23.receive)]
