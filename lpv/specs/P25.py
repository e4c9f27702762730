"""P25: generated identifiers are complete and well formed for every outcome of the random source."""
from spec import *

U = 'lp::utilities::Uuid'
TRUSTED = ['snprintf with %x writes the lower-case hexadecimal digits of its argument, truncated to the buffer', 'a uniform distribution over [a, b] returns some value in [a, b]']
HEX = z3.Union(z3.Range('0', '9'), z3.Range('a', 'f'))


def hexfacts(X, s, t, base):
    """what the lower-case hexadecimal text s of the number t looks like"""
    if base != 16:
        return
    n = z3.Length(s)
    X.assume(z3.Implies(t >= 0, z3.InRe(s, z3.Plus(HEX))))
    for k in range(1, 17):
        X.assume(z3.Implies(t >= 0, (n == k) == z3.And(t >= (16 ** (k - 1) if k > 1 else 0), t < 16 ** k)))
    for k in (1, 2, 3, 4, 8):
        for d in range(16):
            X.assume(z3.Implies(z3.And(t >= d * 16 ** (k - 1), t < (d + 1) * 16 ** (k - 1), t < 16 ** k, t >= (16 ** (k - 1) if k > 1 else 0)), z3.PrefixOf(z3.StringVal('%x' % d), s)))


def flatten(t):
    t = z3.simplify(t)
    if t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [y for x in t.children() for y in flatten(x)]
    return [t]


def groups(t):
    gs = [[]]
    for p in flatten(t):
        if z3.is_string_value(p):
            parts = p.as_string().split('-')
            for i, x in enumerate(parts):
                if i:
                    gs.append([])
                if x:
                    gs[-1].append(z3.StringVal(x))
        else:
            gs[-1].append(p)
    return [z3.Concat(*g) if len(g) > 1 else g[0] if g else z3.StringVal('') for g in gs], gs


def create(prog):
    X = Engine(prog, StrZ3())
    fn = the(prog, U + '::CreateUuid', 0)
    X.hooks['itoa'] = hexfacts

    def body():
        X.note = {}
        r = invoke(X, fn, None, [])
        X.check('CreateUuid never throws', r.kind == 'ok')
        if r.kind != 'ok':
            return
        u = r.v if isinstance(r.v, E.LV) else X.cell(X.val(r.v))
        t = content(X, u)
        gl, parts = groups(t)
        if any(not X.S.nulfree(p) for ps in parts for p in ps):
            raise Unsupported('text of a generated identifier')
        X.check('five groups joined by dashes', z3.BoolVal(len(gl) == 5))
        if len(gl) != 5:
            return
        for i, (g, ps) in enumerate(zip(gl, parts)):
            X.check('group %d is not empty' % (i + 1), z3.Length(g) > 0)
            for p in ps:
                X.check('group %d consists of lower-case hexadecimal digits' % (i + 1), z3.InRe(p, z3.Star(HEX)))
        X.check('third group has four digits', z3.Length(gl[2]) == 4)
        X.check('third group starts with 4', z3.PrefixOf(z3.StringVal('4'), gl[2]))
        X.check('fourth group has four digits', z3.Length(gl[3]) == 4)
        X.check('fourth group starts with 8, 9, a or b', z3.Or([z3.PrefixOf(z3.StringVal(c), gl[3]) for c in '89ab']))
        # never equal to an empty one, equal to itself
        eq = the(prog, U + '::operator==', 1)
        e = ObjLV(X.alloc(U), U, X.struct_shape(U))
        X.inline(the(prog, U + '::Uuid', 0), e, [])
        for a, b, want, nm in ((u, e, False, 'a generated identifier differs from an empty one'), (e, u, False, 'an empty identifier differs from a generated one'), (u, u, True, 'a generated identifier equals itself')):
            c = X.val(X.inline(eq, a, [b])).t
            X.check(nm, c if want else z3.Not(c))
    X.paths = verify(X, body)
    return X


def content(X, u):
    f = [f for f in X.prog.defs.values() if f.user and '::operator basic_string' in f.sig.replace('std::__cxx11::', '').replace('std::', '') and f.sig.startswith(U)]
    if len(f) != 1:
        raise Unsupported('conversion of Uuid to text')
    return X.val(X.inline(f[0], u, [])).t


def tasks(prog):
    return [Task('CreateUuid', create)]
