"""P07: sender path bookkeeping of messages (contracts of PrependSender, RemoveSender,
WasSentBySender on exact string theory)."""
from spec import *

M = 'lp::messages::Message'


def accessor(X, o, name):
    return X.val(X.inline(the(X.prog, M + '::' + name), o, []))


def starts(X, s, name):
    return z3.PrefixOf(z3.Concat(name, z3.StringVal('/')), s)


def setup(prog):
    X = Engine(prog, StrZ3())
    o = sym_this(X, M)
    old = X.st
    return X, o


def state(X, o):
    """observable parts: sender through its getter; everything else of the object must stay put"""
    return accessor(X, o, 'GetSender').t


def others(X, o, old):
    """topic and payload of the message, and every other object, are untouched"""
    l = z3.Const('l!un', Int)
    cs = [accessor(X, o, 'GetTopic').t == X.topic0]
    for key, arrs in X.st.heap.items():
        for a, b in zip(arrs, X.heap_at_raw(old, key, arrs)):
            if a.eq(b):
                continue
            if key[0] == M and a.sort().range() == X.S.sort:
                cs.append(z3.ForAll([l], z3.Implies(z3.And(l < old.nxt, l != o.loc), z3.Select(a, l) == z3.Select(b, l))))
            else:
                cs.append(z3.ForAll([l], z3.Implies(l < old.nxt, z3.Select(a, l) == z3.Select(b, l))))
    return z3.And(cs)


def method(name, post):
    def run(prog):
        X, o = setup(prog)
        fn = the(prog, M + '::' + name)

        def body():
            X.topic0 = accessor(X, o, 'GetTopic').t
            s0 = accessor(X, o, 'GetSender').t
            a = sym_arg(X, fn.pt[0], 'name')
            n = X.val(a).t
            X.note = {'sender': s0, 'name': n}
            old = X.st.copy()
            r = invoke(X, fn, o, [a])
            X.check(name + ' never throws', r.kind == 'ok')
            if r.kind == 'ok':
                post(X, o, s0, n, r.v)
                X.check(name + ': topic, payload and other messages unchanged', others(X, o, old))
        X.paths = verify(X, body)
        return X
    return Task('Message::' + name, run)


def post_prepend(X, o, s0, n, r):
    s1 = accessor(X, o, 'GetSender').t
    X.check('PrependSender: sender == name + "/" + old sender', s1 == z3.Concat(n, z3.StringVal('/'), s0))


def post_remove(X, o, s0, n, r):
    s1 = accessor(X, o, 'GetSender').t
    k = z3.Length(n) + 1
    X.check('RemoveSender: strips exactly the leading name and slash',
            z3.Implies(starts(X, s0, n), s1 == z3.SubString(s0, k, z3.Length(s0) - k)))
    X.check('RemoveSender: no change when the sender does not start with the name',
            z3.Implies(z3.Not(starts(X, s0, n)), s1 == s0))


def post_was(X, o, s0, n, r):
    X.check('WasSentBySender == sender starts with name + "/"', X.val(r).t == starts(X, s0, n))
    X.check('WasSentBySender: sender unchanged', accessor(X, o, 'GetSender').t == s0)


def roundtrip(prog):
    X, o = setup(prog)

    def body():
        X.topic0 = accessor(X, o, 'GetTopic').t
        s0 = accessor(X, o, 'GetSender').t
        n = sym_arg(X, the(prog, M + '::PrependSender').pt[0], 'name')
        X.note = {'sender': s0, 'name': X.val(n).t}
        r1 = invoke(X, the(prog, M + '::PrependSender'), o, [n])
        r2 = invoke(X, the(prog, M + '::RemoveSender'), o, [n])
        X.check('RemoveSender undoes PrependSender', z3.BoolVal(r1.kind == 'ok' and r2.kind == 'ok') if not (r1.kind == 'ok' and r2.kind == 'ok') else accessor(X, o, 'GetSender').t == s0)
    X.paths = verify(X, body)
    return X


def tasks(prog):
    return [method('PrependSender', post_prepend), method('RemoveSender', post_remove), method('WasSentBySender', post_was),
            Task('remove undoes prepend', roundtrip)]
