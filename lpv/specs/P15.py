"""P15: RawBytes holds exactly the concatenation of what was put in."""
from spec import *

R = 'lp::data::RawBytes'
TRUSTED = ['new[]/delete[]/memcpy act on blocks of bytes as the C++ standard says']
ASSUMPTIONS = ['buffers are shorter than 2^62 bytes', 'a byte block passed in is readable for the stated size']


def view(X, o):
    """observable content: (pointer, size) through the getters"""
    p = X.val(X.inline(the(X.prog, R + '::GetContent'), o, []))
    n = X.val(X.inline(the(X.prog, R + '::GetSize'), o, []))
    return p, n.t


def inv(X, o):
    """the buffer is empty without a block, or owns a live block of at least that size"""
    p, n = view(X, o)
    b, off = p.c
    return z3.And(n >= 0, n < 1 << 62, z3.Implies(b == 0, n == 0),
                  z3.Implies(b != 0, z3.And(X.lib.mem('live', b), off == 0, X.lib.mem('len', b) >= n, X.lib.mem('len', b) < 1 << 62)))


def valid(X, p, n):
    b, off = p.c
    return z3.And(b > 0, X.lib.mem('live', b), off >= 0, off + n <= X.lib.mem('len', b), n >= 0, n < 1 << 61, X.lib.mem('len', b) < 1 << 62)


def byte(X, st, p, i):
    return z3.Select(X.lib.mem('data', p.c[0], st), p.c[1] + i)


def frame(X, old, name, own=None):
    """other blocks keep their contents and stay alive; other objects keep their fields"""
    l = z3.Const('l!f', Int)
    for f in ('data', 'live', 'len'):
        a, b = X.st.heap[('$mem', f)][0] if ('$mem', f) in X.st.heap else None, None
        if a is None:
            continue
        sh = X.heap_shape(('$mem', f))
        b = X.heap_at(old, ('$mem', f), sh)[0]
        ex = [l != own] if own is not None else []
        X.check('%s leaves other memory alone (%s)' % (name, f), z3.ForAll([l], z3.Implies(z3.And([l >= 0, l < old.nxt] + ex), z3.Select(a, l) == z3.Select(b, l))))


def ctor2(prog):
    X = Engine(prog, StrOpaque())
    fn = the(prog, R + '::RawBytes', 2)
    o = ObjLV(X.alloc(R), R, X.struct_shape(R))

    def body():
        p, n = sym_arg(X, fn.pt[0], 'content'), sym_arg(X, fn.pt[1], 'size')
        X.note = {'size': n.t, 'null': p.c[0] == 0}
        X.assume(z3.Or(z3.And(p.c[0] == 0, p.c[1] == 0), valid(X, p, n.t)))
        old = X.st.copy()
        r = invoke(X, fn, o, [p, n])
        if r.kind == 'throw':
            X.check('constructor throws only for a null block', p.c[0] == 0)
            X.check('constructor throws ArgumentNullException', X.prog.is_sub(r.exc.typ, 'lp::exceptions::ArgumentNullException'))
            frame(X, old, 'failed constructor')
            return
        X.check('a null block is rejected', p.c[0] != 0)
        q, m = view(X, o)
        X.check('size is the given size', m == n.t)
        X.check('buffer invariant after construction', inv(X, o))
        X.check('the copy is private', q.c[0] >= old.nxt)
        i = z3.Const('i!b', Int)
        X.check('bytes equal the source', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n.t), byte(X, None, q, i) == byte(X, old, p, i))))
        frame(X, old, 'constructor')
    X.paths = verify(X, body)
    return X


def ctor0(prog):
    X = Engine(prog, StrOpaque())
    fn = the(prog, R + '::RawBytes', 0)
    o = ObjLV(X.alloc(R), R, X.struct_shape(R))

    def body():
        r = invoke(X, fn, o, [])
        X.check('default constructor never throws', r.kind == 'ok')
        X.check('default buffer is empty', z3.And(inv(X, o), view(X, o)[1] == 0))
    X.paths = verify(X, body)
    return X


def append(prog):
    X = Engine(prog, StrOpaque())
    fn = the(prog, R + '::Append', 2)
    o = sym_this(X, R)

    def body():
        X.assume(inv(X, o))
        p, n = sym_arg(X, fn.pt[0], 'data'), sym_arg(X, fn.pt[1], 'size')
        X.assume(valid(X, p, n.t))
        q0, m0 = view(X, o)
        X.assume(m0 + n.t < 1 << 61)
        X.note = {'size': n.t, 'old size': m0}
        old = X.st.copy()
        r = invoke(X, fn, o, [p, n])
        X.check('Append never throws', r.kind == 'ok')
        if r.kind != 'ok':
            return
        q, m = view(X, o)
        i = z3.Const('i!b', Int)
        X.check('size grows by the appended size', m == m0 + n.t)
        X.check('buffer invariant after Append', inv(X, o))
        X.check('earlier bytes are kept', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < m0), byte(X, None, q, i) == byte(X, old, q0, i))))
        X.check('appended bytes follow', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n.t), byte(X, None, q, m0 + i) == byte(X, old, p, i))))
        frame(X, old, 'Append', own=q0.c[0])
    X.paths = verify(X, body)
    return X


def dtor(prog):
    X = Engine(prog, StrOpaque())
    fn = the(prog, R + '::~RawBytes', 0)
    o = sym_this(X, R)

    def body():
        X.assume(inv(X, o))
        q0, _ = view(X, o)
        old = X.st.copy()
        r = invoke(X, fn, o, [])
        X.check('destructor never throws', r.kind == 'ok')
        X.check('destructor releases the block', z3.Implies(q0.c[0] != 0, z3.Not(X.lib.mem('live', q0.c[0]))))
        frame(X, old, 'destructor', own=q0.c[0])
    X.paths = verify(X, body)
    return X


def getters(prog):
    X = Engine(prog, StrOpaque())
    o = sym_this(X, R)

    def body():
        old = X.st.copy()
        view(X, o)
        X.check('getters change nothing', unchanged(X, old))
    X.paths = verify(X, body)
    return X


def tasks(prog):
    return [Task('RawBytes(void*, size)', ctor2), Task('RawBytes()', ctor0), Task('Append', append), Task('~RawBytes', dtor), Task('getters', getters)]
