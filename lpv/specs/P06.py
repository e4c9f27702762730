"""P06: reading JSON maps a document to the corresponding payload.

ParseJsonObject is verified against its contract with the recursive calls replaced by that contract;
DeserializeFromJson is verified against it and the contract of the parser."""
from json_doc import *

ASSUMPTIONS = ['documents are finite (structural induction)', 'nothing else reads or frees the document during the call', 'memory allocation succeeds', 'texts are NUL-free and shorter than 2 GB (the parser takes an int length)']
PARSE = RAW + '::ParseJsonObject'


def parse_contract(X, J):
    def apply(X, fn, this, a):
        j, n = X.val(a[0]).t, X.val(a[1]).t
        X.check('the node filled from JSON is alive', z3.And(n > 0, n < X.st.nxt, dynof(X, n) == X.clsids[RAW]))
        X.check('the node filled from JSON is empty', empty_node(X, n))
        X.check('the node filled from JSON is no finished copy', z3.Not(frozen(X, n)))
        X.check('the document is read before it is released', z3.Not(X.st.ghost['json.gone']))
        n0, n1 = grow(X)
        for f, t, _ in X.prog.recs[RAW].fields:
            sh = X.shape(t)
            X.ghosting += 1
            v = X.newsym(sh, 'filled')
            X.typed(v)
            X.hwrite(RAW, f, n, v)
            X.ghosting -= 1
        X.map_axioms(dic(X, n).c[0])
        X.assume(J.maps(n, j))
        X.assume(A(n) == JT(j))
        X.assume(children(X, n, lambda c: z3.And(c >= n0, c < n1)))
        X.assume(wf(X, n))
        freeze(X, n0, n1)
        X.st.ghost['frozen'] = z3.Store(X.st.ghost['frozen'], n, z3.BoolVal(True))
        return V(UNIT, [])
    return Contract('ParseJsonObject: an empty node becomes the tree of the document node; nothing else changes', PARSE, apply)


def engine6(prog):
    X = engine(prog)
    J = Json(X)
    X.contracts.insert(0, parse_contract(X, J))
    write_guard(X)
    return X, J


def invs(X, J, root, j):
    def gen(ctx):
        out = frame_invs(X, ctx, [root], ctx.entry)
        start = X.start
        out.append(('children of the node are finished', lambda st: children(X, root, lambda x: z3.And(frozen(X, x, st), x >= start.nxt, x < st.nxt, dynof(X, x, st) == X.clsids[RAW]), st)))
        out.append(('the node is well formed', lambda st: wf(X, root, st)))
        out.append(('the node is not finished', lambda st: z3.Not(frozen(X, root, st))))
        pos = [(n, p, 'items') for n, p in positions(ctx)] + [(n, p, 'keys') for n, p in positions(ctx)]
        for c in sorted(ctx.mods.cells, key=str):
            v = ctx.entry.cells.get(c)
            if isinstance(v, V) and v.s.k == 'ptr':
                pos.append(('entry%s' % c, lambda st, c=c: z3.If(st.cells[c].t == 0, count(j), eidx(st.cells[c].t)), 'keys'))
                out.append(('cell %s is an entry of the object or null' % c, lambda st, c=c: z3.Or(st.cells[c].t == 0, z3.And(etab(st.cells[c].t) == j, eidx(st.cells[c].t) >= 0, eidx(st.cells[c].t) < count(j), st.cells[c].t == entry(j, eidx(st.cells[c].t))))))
        for n, p, what in pos:
            if what == 'items':
                out.append(('position %s is within the array' % n, lambda st, p=p: z3.And(p(st) >= 0, p(st) <= jlen(j))))
                out.append(('the items up to %s are read' % n, lambda st, p=p: J.items(root, j, p(st), st)))
            else:
                out.append(('position %s is within the object' % n, lambda st, p=p: z3.And(p(st) >= 0, p(st) <= count(j))))
                out.append(('the keys up to %s are read' % n, lambda st, p=p: J.keys(root, j, p(st), st)))
        return out
    return gen


def parse(t):
    def run(prog):
        X, J = engine6(prog)
        fn = the(prog, PARSE, 2)
        n = node(X)
        j = z3.Const('json', Int)

        def body():
            no_frozen(X)
            X.st.ghost['json.gone'] = z3.BoolVal(False)
            J.axioms()
            X.assume(ty(j) == J.T[t])
            X.assume(j >= 0)
            if t != 'null':
                X.assume(j > 0)
            X.assume(empty_node(X, n.loc))
            old = X.st.copy()
            X.start = old
            r = invoke(X, fn, None, [V(X.shape(fn.pt[0]), [j]), V(X.shape(fn.pt[1]), [n.loc])])
            X.check('mapping JSON never throws', r.kind == 'ok')
            if r.kind != 'ok':
                return
            X.check('a JSON %s maps to the corresponding payload' % t, J.maps(n.loc, j))
            X.check('JSON %s: all children are new and finished' % t, children(X, n.loc, lambda c: z3.And(c >= old.nxt, c < X.st.nxt, frozen(X, c))))
            X.check('JSON %s: nothing else changes' % t, unchanged_but_nodes(X, old, [n.loc]))
            X.check('JSON %s: the payload is well formed' % t, wf(X, n.loc))
        X.invs.append(lambda ctx: invs(X, J, n.loc, j)(ctx))
        X.paths = verify(X, body)
        return X
    return Task('ParseJsonObject of a %s' % t, run)


def document(prog):
    X, J = engine6(prog)
    fn = the(prog, RAW + '::DeserializeFromJson', 1)
    S = X.S.sort
    ok, depth, doc, bare = z3.Function('json.valid', S, Bool), z3.Function('json.depth', S, Int), z3.Function('json.document', S, Int), z3.Function('json.open_end', S, Bool)
    OK = z3.IntVal(enum(prog, 'json_tokener_error', 'json_tokener_success'))
    X.ext['json_tokener'] = [('err', U32)]
    LIMIT = 1000

    def new(X, f, this, a, fr, e):
        d = X.val(a[0]).t if a else z3.IntVal(32)
        loc = X.alloc()
        X.hwrite('json_tokener', 'err', loc, V(U32, [OK]))
        X.toks.append((loc, d))
        return V(X.shape(f.ret), [loc])

    def result(X, text, d, whole):
        """the parser's verdict: a text that ends in a bare number or literal is complete only if its end is part of the input"""
        err = X.fresh(Int, 'err')
        X.assume(z3.And(err >= 0, err < 1 << 32))
        good = z3.And(ok(text), depth(text) <= d, z3.Or(whole, z3.Not(bare(text))))
        X.assume((err == OK) == good)
        X.assume(doc(text) >= 0)
        X.parsed.append((text, good))
        return err, z3.If(good, doc(text), z3.IntVal(0))

    def parse_ex(X, f, this, a, fr, e):
        tok, text, n = X.val(a[0]).t, X.lib.sv(a[1]), X.val(a[2]).t
        d = [d for l, d in X.toks if l.eq(tok)]
        if not d:
            raise Unsupported('unknown tokener')
        X.check('the whole text is parsed', z3.Or(n == X.S.len(text), n == X.S.len(text) + 1, n == -1))
        err, o = result(X, text, d[0], n != X.S.len(text))
        X.hwrite('json_tokener', 'err', tok, V(U32, [err]))
        return V(X.shape(f.ret), [o])

    def parse1(X, f, this, a, fr, e):
        err, o = result(X, X.lib.sv(a[0]), z3.IntVal(32), z3.BoolVal(True))
        if len(a) > 1:
            X.write(X.deref(X.val(a[1]), f.pt[1], fr), V(U32, [err]))
        return V(X.shape(f.ret), [o])

    def put(X, f, this, a, fr, e):
        X.st.ghost['json.gone'] = z3.BoolVal(True)
        return V(INT, [z3.IntVal(1)])
    X.lib.ext.update({'json_tokener_new_ex': new, 'json_tokener_new': new, 'json_tokener_parse_ex': parse_ex, 'json_tokener_parse': parse1, 'json_tokener_parse_verbose': parse1,
                      'json_tokener_get_error': lambda X, f, this, a, fr, e: X.hread('json_tokener', 'err', X.val(a[0]).t, U32),
                      'json_tokener_free': lambda X, f, this, a, fr, e: V(UNIT, []),
                      'json_tokener_reset': lambda X, f, this, a, fr, e: V(UNIT, []),
                      'json_tokener_set_flags': lambda X, f, this, a, fr, e: X.check('the parser accepts what it accepts by default', X.val(a[1]).t == 0) or V(UNIT, []),
                      'json_object_put': put})

    def body():
        X.toks, X.parsed = [], []
        no_frozen(X)
        X.st.ghost['json.gone'] = z3.BoolVal(False)
        J.axioms()
        s = sym_arg(X, fn.pt[0], 'text')
        text = X.val(s).t
        X.assume(X.S.nonul(text))
        X.assume(X.S.len(text) < (1 << 31) - 1)
        X.note = {}
        old = X.st.copy()
        X.start = old
        r = invoke(X, fn, None, [s])
        X.check('reading JSON never throws', r.kind == 'ok')
        if r.kind != 'ok':
            return
        X.assume(depth(text) >= 0)
        n = X.val(r.v).t
        readable = z3.And(ok(text), depth(text) <= LIMIT)
        X.check('reading JSON yields a new node', z3.And(n >= old.nxt, n < X.st.nxt, wf(X, n)))
        X.check('a text the parser accepts yields its document', z3.Implies(readable, z3.And(J.maps(n, doc(text)), A(n) == JT(doc(text)))))
        X.check('a text the parser rejects yields an empty node', z3.Implies(z3.Not(ok(text)), kind(X, n) == X.R.E))
        X.check('a text nested too deeply yields its document or an empty node', z3.Implies(z3.And(ok(text), z3.Not(readable)), z3.Or(kind(X, n) == X.R.E, A(n) == JT(doc(text)))))
        X.check('reading JSON changes nothing', unchanged(X, old))
    X.paths = verify(X, body)
    return X


def handle(prog):
    X, J = engine6(prog)
    fn = the(prog, DG + '::DeserializeFromJson', 1)

    def apply(X, f, this, a):
        n0, n1 = grow(X)
        r = fresh_node(X, n0, n1)
        X.assume(wf(X, r))
        X.assume(A(r) == JT(z3.Function('json.document', X.S.sort, Int)(X.lib.sv(X.val(a[0])))))
        freeze(X, n0, n1)
        return V(X.shape(f.ret), [r])
    X.contracts.insert(0, Contract('RawDatagram::DeserializeFromJson: a new node holding the document', RAW + '::DeserializeFromJson', apply))
    X.contracts.insert(0, copy_contract(X))

    def body():
        no_frozen(X)
        s = sym_arg(X, fn.pt[0], 'text')
        old = X.st.copy()
        r = invoke(X, fn, None, [s])
        X.check('reading JSON into a datagram never throws', r.kind == 'ok')
        if r.kind == 'ok':
            n = handle_node(X, r.v)
            X.check('the datagram holds the document', z3.And(n > 0, A(n) == JT(z3.Function('json.document', X.S.sort, Int)(X.val(s).t))))
            X.check('reading JSON into a datagram changes nothing', unchanged(X, old))
    X.paths = verify(X, body)
    return X


def tasks(prog):
    return [parse(t) for t in TYPES] + [Task('RawDatagram::DeserializeFromJson', document), Task('Datagram::DeserializeFromJson', handle)]
