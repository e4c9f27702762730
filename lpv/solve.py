"""Back ends: every obligation is tried on z3 (in process) and then on cvc5 and a second z3
(separate processes); the first definite answer counts."""
import z3, subprocess, tempfile, os, time, re
from smt import *

CVC5 = '/usr/bin/cvc5' if os.path.exists('/usr/bin/cvc5') else 'cvc5'


def consts_of(ts):
    seen, out, stack = set(), {}, list(ts)
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            stack.append(t.body())
        elif z3.is_app(t):
            if t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[t.decl().name()] = t
            stack += t.children()
    return out


def symbols(t, cache):
    i = t.get_id()
    r = cache.get(i)
    if r is None:
        s = set()
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                st.append(x.body())
            elif z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    s.add(x.decl().name())
                st += x.children()
        r = (frozenset(s), t)
        cache[i] = r
    return r[0]


def relevant(pc, goal, rounds=40):
    """assumptions connected to the goal through shared symbols (dropping others is sound)"""
    cache = {}
    have = set(symbols(goal, cache))
    left = list(pc)
    keep = []
    for _ in range(rounds):
        n = []
        for c in left:
            s = symbols(c, cache)
            if not s or s & have:
                keep.append(c)
                have |= s
            else:
                n.append(c)
        if len(n) == len(left):
            break
        left = n
    return keep


def flatten_selects(fs):
    """replace ground reads of array constants by fresh constants (forgets the array structure:
    sound for proving; only used when no array term is left over elsewhere)"""
    m = {}
    cache = {}

    def go(t):
        i = t.get_id()
        if i in cache:
            return cache[i][0]
        if z3.is_select(t) and z3.is_const(t.arg(0)) and t.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED:
            k = (t.arg(0).get_id(), t.arg(1).get_id())
            if k not in m:
                m[k] = z3.Const('sel%d' % len(m), t.sort())
            r = m[k]
        elif z3.is_quantifier(t) or t.num_args() == 0:
            r = t
        else:
            ch = [go(c) for c in t.children()]
            r = t.decl()(*ch) if any(not a.eq(b) for a, b in zip(ch, t.children())) else t
        cache[i] = (r, t)
        return r
    return [go(f) for f in fs]


def to_smt2(fs, logic='ALL'):
    s = z3.Solver()
    s.add(*fs)
    t = s.sexpr()
    t = t.replace('(seq.last_indexof', '(str.last_indexof')
    return '(set-logic %s)\n' % logic + t + '\n(check-sat)\n'


def run_cvc5(txt, timeout, extra=()):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    try:
        r = subprocess.run([CVC5, '--strings-exp', '--tlimit=%d' % (timeout * 1000), *extra, f.name], capture_output=True, text=True, timeout=timeout + 5)
        o = r.stdout.strip().split('\n')[0]
        if o in ('sat', 'unsat'):
            return o
        return 'unknown ' + (r.stdout + r.stderr)[:200]
    except subprocess.TimeoutExpired:
        return 'unknown timeout'
    finally:
        os.unlink(f.name)


def run_z3bin(txt, timeout, binary='z3-new'):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    try:
        r = subprocess.run([binary, '-T:%d' % timeout, f.name], capture_output=True, text=True, timeout=timeout + 5)
        o = r.stdout.strip().split('\n')[0]
        return o if o in ('sat', 'unsat') else 'unknown'
    except subprocess.TimeoutExpired:
        return 'unknown'
    finally:
        os.unlink(f.name)


def confirm(X, ob, model, fs, t0, t2):
    """a model only counts if no quantifier-free assertion evaluates to false in it, and a model of quantified
    assertions only if no other solver refutes them (z3 5 was seen to answer sat on unsatisfiable formulas)"""
    for f in fs:
        try:
            if z3.is_false(model.eval(f, model_completion=True)):
                r = run_cvc5(to_smt2(fs), t2)
                if r in ('sat', 'unsat'):
                    return r, 'cvc5', time.time() - t0, None
                return 'unknown', 'inconsistent model', time.time() - t0, None
        except z3.Z3Exception:
            pass
    if any(quantified(f) for f in fs):
        txt = to_smt2(fs)
        if run_z3bin(txt, 5, 'z3') == 'unsat':
            return 'unsat', 'z3 4.8', time.time() - t0, None
        if run_cvc5(txt, 5) == 'unsat':
            return 'unsat', 'cvc5', time.time() - t0, None
    return 'sat', 'z3', time.time() - t0, model


def quantified(t, seen=None):
    seen = set() if seen is None else seen
    if t.get_id() in seen:
        return False
    seen.add(t.get_id())
    return z3.is_quantifier(t) or any(quantified(c, seen) for c in t.children())


def conjuncts(t):
    if z3.is_and(t):
        return [c for x in t.children() for c in conjuncts(x)]
    return [t]


def solve(X, ob, t1=4, t2=15):
    """-> (verdict, back end, seconds, model or None)"""
    t0 = time.time()
    g = z3.simplify(ob.goal)
    if z3.is_true(g):
        return 'unsat', 'simplifier', 0.0, None
    known = {f.get_id() for c in ob.pc for f in conjuncts(c)}
    left = [c for c in conjuncts(ob.goal) if c.get_id() not in known]
    if not left:
        return 'unsat', 'simplifier', 0.0, None
    extra = X.S.litfacts() if X.S.name == 'opaque' else []
    pc = list(ob.pc)
    rel = relevant(pc, ob.goal) if symbols(ob.goal, {}) else pc
    fs = rel + extra + [z3.Not(ob.goal)]
    s = z3.Solver()
    s.set('timeout', int(t1 * 1000))
    s.add(*fs)
    r = s.check()
    if r == z3.unsat:
        return 'unsat', 'z3', time.time() - t0, None
    model = None
    if r == z3.sat:
        if len(rel) != len(pc):
            s2 = z3.Solver()
            s2.set('timeout', int(t1 * 1000))
            s2.add(*(pc + extra + [z3.Not(ob.goal)]))
            r2 = s2.check()
            if r2 == z3.sat:
                return confirm(X, ob, s2.model(), pc + extra + [z3.Not(ob.goal)], t0, t2)
            if r2 == z3.unsat:
                return 'unsat', 'z3', time.time() - t0, None
            fs = pc + extra + [z3.Not(ob.goal)]
        else:
            return confirm(X, ob, s.model(), fs, t0, t2)
    flat = flatten_selects(fs)
    s3 = z3.Solver()
    s3.set('timeout', int(t1 * 1000))
    s3.add(*flat)
    if s3.check() == z3.unsat:
        return 'unsat', 'z3', time.time() - t0, None
    txt = to_smt2(flat)
    r = run_cvc5(txt, t2)
    if r == 'unsat':
        return 'unsat', 'cvc5', time.time() - t0, None
    txt0 = to_smt2(fs)
    if txt0 != txt:
        r = run_cvc5(txt0, t2)
        if r == 'unsat':
            return 'unsat', 'cvc5', time.time() - t0, None
    if r == 'sat':
        return 'sat', 'cvc5', time.time() - t0, None
    r2 = run_cvc5(txt0, t2, ('--enum-inst',))
    if r2 in ('sat', 'unsat'):
        return r2, 'cvc5', time.time() - t0, None
    return 'unknown', r, time.time() - t0, None


def pyval(v):
    """python value of a model term"""
    if z3.is_string_value(v):
        s = v.as_string()
        s = re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16) & 255), s)
        return s
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_true(v) or z3.is_false(v):
        return 1 if z3.is_true(v) else 0
    return str(v)


def solve_notes(X, ob, t1, t2):
    r, be, dt, model = solve(X, ob, t1, t2)
    notes = {}
    if r == 'sat':
        ns = {k: v for k, v in getattr(ob, 'hints', None) or []}
        if model is not None:
            for k, v in ns.items():
                try:
                    notes[k] = pyval(model.eval(v, model_completion=True))
                except Exception:
                    pass
        elif ns:
            notes = cvc5_values(X, ob, ns, t2)
    return r, be, round(dt, 3), notes


def cvc5_values(X, ob, ns, t2):
    extra = X.S.litfacts() if X.S.name == 'opaque' else []
    cs = [z3.Const('note%d' % i, v.sort()) == v for i, v in enumerate(ns.values())]
    fs = flatten_selects(relevant(ob.pc, ob.goal) + extra + cs + [z3.Not(ob.goal)])
    txt = '(set-option :produce-models true)\n' + to_smt2(fs) + '(get-value (%s))\n' % ' '.join('note%d' % i for i in range(len(cs)))
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    try:
        r = subprocess.run([CVC5, '--strings-exp', '--tlimit=%d' % (t2 * 1000), f.name], capture_output=True, text=True, timeout=t2 + 5)
        out = {}
        for (k, v), m in zip(ns.items(), re.findall(r'\(note\d+ ("(?:[^"]|"")*"|[^()\s]+|\(- \d+\))\)', r.stdout)):
            if m.startswith('"'):
                s = m[1:-1].replace('""', '"')
                out[k] = re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda q: chr(int(q.group(1), 16) & 255), s)
            elif m.startswith('(-'):
                out[k] = -int(m[3:-1])
            elif m.isdigit():
                out[k] = int(m)
        return out
    except subprocess.TimeoutExpired:
        return {}
    finally:
        os.unlink(f.name)


def contradictory(X, pc):
    s = z3.Solver()
    s.set('timeout', 3000)
    s.add(*pc)
    if X.S.name == 'opaque':
        s.add(*X.S.litfacts())
    return s.check() == z3.unsat
