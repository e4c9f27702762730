"""P26: configuration equality is structural and reads nothing outside the lists."""
from spec import *

PMC, LPC = 'lp::PluginManagerConfiguration', 'lp::LampPostConfiguration'


def listeq(X, a, b):
    i = z3.Const('i!spec', Int)
    return z3.And(a.t == b.t, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a.t), z3.Select(a.c[1], i) == z3.Select(b.c[1], i))))


def fieldv(X, lv, cls, f):
    for n, t, _ in X.prog.recs[cls].fields:
        if n == f:
            return X.field(lv, cls, f, X.shape(t))
    raise Unsupported('field %s::%s does not exist' % (cls, f))


def pm_equal(X, a, b):
    return z3.And(X.read(fieldv(X, a, PMC, 'mBus')).t == X.read(fieldv(X, b, PMC, 'mBus')).t,
                  listeq(X, X.read(fieldv(X, a, PMC, 'mTemplateSearchPaths')), X.read(fieldv(X, b, PMC, 'mTemplateSearchPaths'))))


def lp_equal(X, a, b):
    pa, pb = fieldv(X, a, LPC, 'mPluginManagerConfiguration'), fieldv(X, b, LPC, 'mPluginManagerConfiguration')
    return z3.And(pm_equal(X, pa, pb), listeq(X, X.read(fieldv(X, a, LPC, 'mConfigurationFiles')), X.read(fieldv(X, b, LPC, 'mConfigurationFiles'))))


def task(cls, op, eq):
    def run(prog):
        X = Engine(prog, StrOpaque())
        fn = the(prog, cls + '::operator' + op)
        s = X.struct_shape(cls)
        a = X.cell(X.newsym(s, 'a'), s)
        b = X.cell(X.newsym(s, 'b'), s)

        def body():
            va, vb = X.read(a), X.read(b)
            e = eq(X, a, b)
            r = invoke(X, fn, a, [b])
            X.check('%s::operator%s never throws' % (cls, op), r.kind == 'ok')
            if r.kind == 'ok':
                t = X.val(r.v).t
                X.check('%s::operator%s: true only if all settings are equal' % (cls, op), z3.Implies(t if op == '==' else z3.Not(t), e))
                X.check('%s::operator%s: true if all settings are equal' % (cls, op), z3.Implies(e, t if op == '==' else z3.Not(t)))
                X.check('%s::operator%s changes neither operand' % (cls, op), z3.And([x == y for x, y in zip(X.read(a).c + X.read(b).c, va.c + vb.c)]))
        X.paths = verify(X, body)
        return X
    return Task('%s::operator%s' % (cls, op), run)


def tasks(prog):
    return [task(PMC, '==', pm_equal), task(PMC, '!=', pm_equal), task(LPC, '==', lp_equal), task(LPC, '!=', lp_equal)]
