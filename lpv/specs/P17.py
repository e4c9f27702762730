"""P17: a directory listing holds exactly the entries the filter asks for, in directory order."""
from spec import *

F = 'lp::Filesystem::'
TRUSTED = ['opendir/readdir/closedir/stat/access as POSIX says: readdir yields the entries one after another and then null; a path is a regular file, a directory or neither']
ASSUMPTIONS = ['the kind of a path does not change during one listing', 'no other code touches the directory stream']
U32 = Sh('int', [Int], w=32, sg=False)
PATHF, FTYPE = 'mode_of', 'exists'


def engine(prog):
    X = Engine(prog, StrOpaque())
    X.ext.update({'stat': [('st_mode', U32)], 'dirent': [('d_name', X.STR), ('d_type', Sh('int', [Int], w=8, sg=False))]})
    S = X.S.sort
    mode, ex = z3.Function('mode_of', S, Int), z3.Function('path_exists', S, Bool)
    X.mode, X.exists = mode, ex

    def m(p):
        X.assume(z3.And(mode(p) >= 0, mode(p) < 1 << 32))
        return mode(p)

    def stat(X, f, this, a, fr, e):
        p = X.lib.sv(a[0])
        dst = X.deref(X.val(a[1]), f.pt[1], fr)
        if not X.branch(ex(p)):
            return V(INT, [z3.IntVal(-1)])
        X.write(X.field(dst, 'stat', 'st_mode', U32), V(U32, [m(p)]))
        return V(INT, [z3.IntVal(0)])

    def access(X, f, this, a, fr, e):
        p = X.lib.sv(a[0])
        return V(INT, [z3.If(ex(p), z3.IntVal(0), z3.IntVal(-1))])
    X.lib.ext.update({'stat': stat, 'access': access})
    return X, m


def fmt(t, v):
    """S_ISREG / S_ISDIR of a mode"""
    return (t / 4096) % 16 == v


def kinds(prog, name, want):
    def run(prog):
        X, m = engine(prog)
        fn = the(prog, F + name, 1)

        def body():
            a = [sym_arg(X, fn.pt[0], 'path')]
            p = X.val(a[0]).t
            X.assume(X.S.nonul(p))
            X.note = {}
            old = X.st.copy()
            r = invoke(X, fn, None, a)
            X.check(name + ' never throws', r.kind == 'ok')
            if r.kind == 'ok':
                c = X.exists(p) if want is None else z3.And(X.exists(p), fmt(m(p), want))
                X.check(name + ' reports the kind of the path', X.val(r.v).t == c)
                X.check(name + ' changes nothing', unchanged(X, old))
        X.paths = verify(X, body)
        return X
    return Task(name, run)


def invs(ctx):
    X = ctx.X
    out = []
    for c in sorted(ctx.mods.cells, key=str):
        v = ctx.entry.cells.get(c)
        if isinstance(v, V) and v.s.k == 'seq' and v.s.a.k == 'str':
            def f(st, c=c):
                e, v = st.ghost['fs.want'], st.cells[c]
                i = z3.Const('i!w', Int)
                return z3.And(v.t == e.t, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < e.t), z3.Select(v.c[1], i) == z3.Select(e.c[1], i))))
            out.append(('the list so far is what the filter asks for', f))
    out.append(('the stream position is within the directory', lambda st: z3.And(st.ghost['fs.pos'] >= 0, st.ghost['fs.pos'] <= X.total)))
    return out


def listing(prog):
    X, m = engine(prog)
    fn = the(prog, F + 'GetDirectoryContents', 2)
    sseq = seq_shape(X.STR)
    X.invs.append(invs)
    X.measures.append(lambda ctx: [('entries left in the stream', lambda st: X.total - st.ghost['fs.pos'])])
    X.total = z3.Const('entries', Int)
    names = z3.Const('names', z3.ArraySort(Int, X.S.sort))
    types = z3.Const('types', z3.ArraySort(Int, Int))
    cat, sl = X.S.concat, X.S.lit(b'/')
    X.assume(X.total >= 0)
    X.ghostst = {}

    def opendir(X, f, this, a, fr, e):
        X.check('only the listed directory is opened', X.lib.sv(a[0]) == X.path)
        X.check('the directory is opened once', z3.Not(X.st.ghost['fs.opened']), tag='hard')
        if X.branch(X.readable):
            X.st.ghost['fs.opened'] = z3.BoolVal(True)
            X.st.ghost['fs.open'] = z3.BoolVal(True)
            loc = X.alloc()
            X.dirloc = loc
            return V(X.shape(f.ret), [loc])
        return V(X.shape(f.ret), [z3.IntVal(0)])

    def stream(X, v, what):
        X.check(what + ' uses an open stream', z3.And(X.st.ghost['fs.open'], v.t == X.dirloc) if X.dirloc is not None else z3.BoolVal(False), tag='hard')

    def readdir(X, f, this, a, fr, e):
        stream(X, X.val(a[0]), 'readdir')
        k = X.st.ghost['fs.pos']
        if X.branch(k >= X.total):
            return V(X.shape(f.ret), [z3.IntVal(0)])
        X.st.ghost['fs.pos'] = z3.simplify(k + 1)
        nm = z3.Select(names, k)
        X.assume(X.S.nonul(nm))
        full = cat(cat(X.path, sl), nm)
        w = X.st.ghost['fs.want']
        flt = X.filter
        isf = z3.And(X.exists(full), fmt(m(full), 8), flt % 2 == 1)
        isd = z3.And(X.exists(full), fmt(m(full), 4), (flt / 2) % 2 == 1)
        # at most one of them: the kinds exclude each other
        want = z3.Or(isf, isd)
        w2 = V(w.s, [z3.If(want, w.t + 1, w.t), z3.If(want, z3.Store(w.c[1], w.t, nm), w.c[1])])
        X.st.ghost['fs.want'] = w2
        loc = X.alloc()
        X.hwrite('dirent', 'd_name', loc, V(X.STR, [nm]))
        X.hwrite('dirent', 'd_type', loc, V(Sh('int', [Int], w=8, sg=False), [z3.Select(types, k)]))
        return V(X.shape(f.ret), [loc])

    def closedir(X, f, this, a, fr, e):
        stream(X, X.val(a[0]), 'closedir')
        X.st.ghost['fs.open'] = z3.BoolVal(False)
        return V(INT, [z3.IntVal(0)])
    X.lib.ext.update({'opendir': opendir, 'readdir': readdir, 'closedir': closedir})

    def body():
        X.dirloc = None
        a = [sym_arg(X, t, n) for t, n in zip(fn.pt, ('path', 'filter'))]
        X.path, X.filter = X.val(a[0]).t, X.val(a[1]).t
        X.assume(X.S.nonul(X.path))
        X.assume(z3.And(X.filter >= 1, X.filter <= 3))
        X.readable = z3.Const('readable', Bool)
        X.note = {'filter': X.filter, 'entries': X.total}
        X.st.ghost['fs.opened'] = z3.BoolVal(False)
        X.st.ghost['fs.open'] = z3.BoolVal(False)
        X.st.ghost['fs.pos'] = z3.IntVal(0)
        X.st.ghost['fs.want'] = V(sseq, [z3.IntVal(0), z3.Const('want0', z3.ArraySort(Int, X.S.sort))])
        r = invoke(X, fn, None, a)
        X.check('GetDirectoryContents never throws', r.kind == 'ok')
        X.check('every stream opened is closed', z3.Not(X.st.ghost['fs.open']), tag='hard')
        if r.kind != 'ok':
            return
        v, w = X.val(r.v), X.st.ghost['fs.want']
        i = z3.Const('i!r', Int)
        X.check('as many names as the filter asks for', v.t == w.t)
        X.check('the names the filter asks for, in order', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < w.t), z3.Select(v.c[1], i) == z3.Select(w.c[1], i))))
        X.check('an unreadable directory yields an empty list', z3.Implies(z3.Not(X.readable), v.t == 0))
        X.check('every entry is visited', z3.Implies(X.readable, X.st.ghost['fs.pos'] == X.total))
    X.paths = verify(X, body)
    return X


def tasks(prog):
    return [kinds(prog, 'IsFile', 8), kinds(prog, 'IsDirectory', 4), kinds(prog, 'PathExists', None), Task('GetDirectoryContents', listing)]
