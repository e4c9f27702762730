"""P08: topic matching is equality or the catch-all pattern."""
from spec import *

AM = 'lp::utilities::AntMatcher::Matches'
BM = 'lp::bus::Bus::TopicMatchesPattern'


def check_fn(name, cls):
    def run(prog):
        X = Engine(prog, StrZ3())
        fn = the(prog, name)
        this = None if fn.static else sym_this(X, cls)

        def body():
            a = [sym_arg(X, fn.pt[0], 'pattern'), sym_arg(X, fn.pt[1], 'topic')]
            p, t = X.val(a[0]).t, X.val(a[1]).t
            X.note = {'pattern': p, 'topic': t}
            old = X.st.copy()
            r = invoke(X, fn, this, a)
            X.check(name + ' never throws', r.kind == 'ok')
            if r.kind == 'ok':
                X.check(name + ' == (identical or pattern is "/**/*")', X.val(r.v).t == z3.Or(p == t, p == z3.StringVal('/**/*')))
                X.check(name + ' changes nothing', unchanged(X, old))
        X.paths = verify(X, body)
        return X
    return Task(name, run)


def tasks(prog):
    return [check_fn(AM, 'lp::utilities::AntMatcher'), check_fn(BM, 'lp::bus::Bus')]
