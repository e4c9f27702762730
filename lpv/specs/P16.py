"""P16: path helpers split and join at the last separator."""
from spec import *

F = 'lp::Filesystem::'
SL, DOT = z3.StringVal('/'), z3.StringVal('.')


def task(name, nargs, post):
    def run(prog):
        X = Engine(prog, StrZ3())
        fn = the(prog, F + name)

        def body():
            a = [sym_arg(X, t, 'path%d' % i) for i, t in enumerate(fn.pt)]
            ts = [X.val(x).t for x in a]
            X.note = {'arg%d' % i: t for i, t in enumerate(ts)}
            r = invoke(X, fn, None, a)
            X.check(name + ' never throws', r.kind == 'ok')
            if r.kind == 'ok':
                post(X, ts, X.val(r.v).t)
                for x, t in zip(a, ts):
                    X.check(name + ' leaves its arguments unchanged', X.val(x).t == t)
        X.paths = verify(X, body)
        return X
    return Task(name, run)


def after_last(X, name, s, sep, r):
    """r is what follows the last sep in s; empty when there is none"""
    n = z3.Length(r)
    X.check(name + ': what follows the last separator (end of the text)', z3.Implies(z3.Contains(s, sep), z3.SuffixOf(z3.Concat(sep, r), s)))
    X.check(name + ': what follows the last separator (no separator in it)', z3.Not(z3.Contains(r, sep)))
    X.check(name + ': empty without separator', z3.Implies(z3.Not(z3.Contains(s, sep)), r == z3.StringVal('')))


def combine(X, a, r):
    X.check('CombinePaths == first + "/" + second', r == z3.Concat(a[0], SL, a[1]))


def filename(X, a, r):
    after_last(X, 'GetFilename', a[0], SL, r)


def basedir(X, a, r):
    p = a[0]
    n = z3.Length(r)
    X.check('GetBaseDirectory: precedes a separator', z3.Implies(z3.Contains(p, SL), z3.PrefixOf(z3.Concat(r, SL), p)))
    X.check('GetBaseDirectory: no separator after it', z3.Implies(z3.Contains(p, SL), z3.Not(z3.Contains(z3.SubString(p, n + 1, z3.Length(p) - n - 1), SL))))
    X.check('GetBaseDirectory: empty without separator', z3.Implies(z3.Not(z3.Contains(p, SL)), r == z3.StringVal('')))


def extension(prog):
    X = Engine(prog, StrZ3())
    fn = the(prog, F + 'GetFileExtension')
    gf = the(prog, F + 'GetFilename')

    def spec(s):
        """the filename of s as a term: postconditions of GetFilename (its own task), which determine it"""
        f = z3.Function('fname', s.sort(), s.sort())(s)
        X.assume(z3.Implies(z3.Contains(s, SL), z3.SuffixOf(z3.Concat(SL, f), s)))
        X.assume(z3.Not(z3.Contains(f, SL)))
        X.assume(z3.Implies(z3.Not(z3.Contains(s, SL)), f == z3.StringVal('')))
        return f

    def c_apply(X, f, this, args):
        return V(X.STR, [spec(X.lib.sv(args[0]))])
    X.contracts = [Contract('Filesystem::GetFilename', F + 'GetFilename', c_apply)]

    def body():
        a = [sym_arg(X, fn.pt[0], 'path')]
        p = X.val(a[0]).t
        X.note = {'path': p}
        r = invoke(X, fn, None, a)
        X.check('GetFileExtension never throws', r.kind == 'ok')
        if r.kind == 'ok':
            f = spec(p)
            after_last(X, 'GetFileExtension', f, DOT, X.val(r.v).t)
    X.paths = verify(X, body)
    return X


def tasks(prog):
    return [task('CombinePaths', 2, combine), task('GetFilename', 1, filename), task('GetBaseDirectory', 1, basedir), Task('GetFileExtension', extension)]
