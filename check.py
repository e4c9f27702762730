#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]: decides one property on /repo's current tree.

1. extract the typed ASTs of /repo's current sources (lpv/lpx.cpp),
2. generate the proof obligations of the property's contracts (lpv/specs/<id>.py),
3. discharge every obligation with z3 / cvc5,
4. run the property's harness (replay/<id>.cpp) on the real, freshly compiled code: it replays
   the solver's counterexamples and cross-checks the trusted library contracts.
"""
import sys, os, json, time, tempfile, shutil, importlib, subprocess, argparse, traceback, signal, multiprocessing, threading, glob, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE + '/lpv', HERE + '/lpv/specs']
sys.setrecursionlimit(20000)
import prog as P

NPROC = min(8, os.cpu_count() or 4)
CXXF = ['-std=gnu++14', '-O1', '-g0', '-w', '-fno-access-control', '-include', 'fstream', '-D_SILENCE_TR1_NAMESPACE_DEPRECATION_WARNING', '-DZMQ_BUILD_DRAFT_API',
        ]
SAN = {'address': ['-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer'],
       'thread': ['-fsanitize=thread', '-fno-omit-frame-pointer']}
LIBS = ['-lflatbuffers', '-ljson-c', '-lzmq', '-ldl', '-lpthread']


# ------------------------------------------------------------------ harness
class Harness(threading.Thread):
    """compiles /repo's sources and the property's harness while the proofs run"""
    def __init__(self, mod, pid, scratch):
        super().__init__(daemon=True)
        self.mod, self.pid, self.scratch = mod, pid, scratch
        self.exe = None
        self.err = None

    def run(self):
        try:
            src = os.path.join(HERE, 'replay', self.pid + '.cpp')
            if not os.path.exists(src):
                self.err = 'no harness'
                return
            out = os.path.join(self.scratch, 'obj')
            os.makedirs(out, exist_ok=True)
            extra = getattr(self.mod, 'HARNESS_SOURCES', [])
            srcs = [s for s in P.repo_sources() if '/src/lamppost/' in s or s.endswith(tuple(extra) or ('\0',))]
            san = SAN[getattr(self.mod, 'HARNESS_SAN', 'address')]
            flags = CXXF + san + getattr(self.mod, 'HARNESS_FLAGS', []) + ['-I' + self.scratch + '/inc', '-I' + P.REPO + '/include', '-I/usr/include/json-c', '-I' + HERE + '/replay']
            jobs = []
            for s in srcs + [src]:
                o = os.path.join(out, hashlib.md5(s.encode()).hexdigest() + '.o')
                jobs.append((s, o))
            sem = threading.Semaphore(max(2, NPROC - 2))
            errs = []

            def comp(s, o):
                with sem:
                    r = subprocess.run(['nice', '-n', '5', 'g++', *flags, '-c', s, '-o', o], capture_output=True, text=True)
                    if r.returncode:
                        errs.append(s + '\n' + r.stderr[-1500:])
            ts = [threading.Thread(target=comp, args=j) for j in jobs]
            [t.start() for t in ts]
            [t.join() for t in ts]
            if errs:
                self.err = 'does not compile: ' + errs[0]
                return
            exe = os.path.join(self.scratch, 'harness')
            r = subprocess.run(['g++', *san, *[o for _, o in jobs[::-1]], '-o', exe, *getattr(self.mod, 'HARNESS_LIBS', []), *LIBS], capture_output=True, text=True)
            if r.returncode:
                self.err = 'does not link: ' + r.stderr[-1500:]
                return
            self.exe = exe
        except Exception as e:
            self.err = 'harness build: %s' % e


def literals(program):
    """string and integer literals of the current source: fed to the harness"""
    strs, ints = set(), set()
    from engine import walk_json
    for f in program.defs.values():
        if f.user:
            for n in walk_json([f.body, f.inits]):
                if n.get('k') == 'str' and isinstance(n.get('v'), list):
                    strs.add(bytes(n['v']))
                elif n.get('k') == 'int':
                    try:
                        ints.add(int(n['vs']) if 'vs' in n else int(n['v']))
                    except Exception:
                        pass
                    if n.get('char'):
                        pass
    return sorted(strs)[:300], sorted(ints)[:400]


def run_harness(h, scratch, tier, seed, dct, values):
    """-> (status, text); status in ok / fail / hang / none"""
    if h.exe is None:
        return 'none', h.err or 'not built', 0, 0
    d = os.path.join(scratch, 'dict')
    strs, ints = dct
    with open(d, 'w') as f:
        for s in strs:
            f.write('s ' + s.hex() + '\n')
        for i in ints:
            f.write('i %d\n' % i)
        for v in values:
            f.write(('v ' + v.encode('latin-1', 'replace').hex() if isinstance(v, str) else 'n %d' % v) + '\n')
    work = os.path.join(scratch, 'work')
    os.makedirs(work, exist_ok=True)
    limit = getattr(h.mod, 'HARNESS_LIMIT', 90) * (4 if tier == 'thorough' else 1)
    env = dict(os.environ, TSAN_OPTIONS='halt_on_error=1:exitcode=66:report_signal_unsafe=0:report_destroy_locked=0', ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=1', LPV_TIER=tier, LPV_SEED=str(seed), HOME=work)
    try:
        r = subprocess.run([h.exe, d], cwd=work, env=env, capture_output=True, timeout=limit, start_new_session=True)
    except subprocess.TimeoutExpired as e:
        return 'hang', 'the harness did not finish within %d s; output so far:\n%s' % (limit, (e.stdout or b'').decode('latin-1')[-1500:]), 0, 0
    out = (r.stdout + r.stderr).decode('latin-1')
    n = m = 0
    for l in out.splitlines():
        if l.startswith('RAN '):
            n, m = int(l.split()[1]), int(l.split()[2])
    if r.returncode == 0:
        return 'ok', out[-2000:], n, m
    return 'fail', out[-4000:], n, m


# ------------------------------------------------------------------ proofs
def solve_slice(X, idx, q, tl, sem):
    import solve
    while True:
        with idx.get_lock():
            i = idx.value
            idx.value += 1
        if i >= len(X.obligs):
            break
        with sem:
            try:
                q.put((i,) + solve.solve_notes(X, X.obligs[i], *tl))
            except Exception as e:
                q.put((i, 'unknown', 'error: %s' % e, 0.0, {}))
    q.put(None)


def do_task(program, t, conn, tier, sem):
    import solve, z3
    from smt import Unsupported
    res = {'name': t.name, 'status': 'ok', 'obligs': [], 'soft': t.soft}
    t0 = time.time()
    try:
        sem.acquire()
        try:
            X = t.run(program)
        finally:
            sem.release()
        res['gen_s'] = time.time() - t0
        res['paths'] = len(X.paths)
        res['functions'] = sorted(X.inlined)
        res['contracts'] = sorted(X.used_contracts)
        res['lib'] = sorted(X.used_lib)
        res['assumptions'] = sorted(X.assumptions)
        res['loops'] = {k.replace(P.REPO + '/', ''): len(v) for k, v in X.loops.items()}
        res['variants'] = {k.replace(P.REPO + '/', ''): sorted({x or 'none found' for x in v}) for k, v in X.variants.items()}
        res['bounded'] = getattr(X, 'bounded', None)
        tl = (5, 20) if tier == 'quick' else (20, 120)
        idx = multiprocessing.Value('i', 0)
        q = multiprocessing.SimpleQueue()
        n = min(NPROC, max(1, len(X.obligs) // 4))
        ps = [multiprocessing.Process(target=solve_slice, args=(X, idx, q, tl, sem)) for _ in range(n)]
        [p.start() for p in ps]
        left = n
        got = {}
        while left:
            x = q.get()
            if x is None:
                left -= 1
            else:
                got[x[0]] = x[1:]
        [p.join() for p in ps]
        for i, o in enumerate(X.obligs):
            v, be, dt, notes = got.get(i, ('unknown', 'lost', 0.0, {}))
            res['obligs'].append({'name': o.name, 'where': o.where.replace(P.REPO + '/', ''), 'verdict': v, 'backend': be, 's': round(dt, 3), 'loops': o.loops, 'tag': o.tag, 'notes': notes})
        # vacuity guard: some complete path must be possible
        ok = any(not solve.contradictory(X, st.pc) for st, _ in X.paths[:200])
        if not X.obligs or not ok:
            res['status'] = 'vacuous'
    except Unsupported as e:
        res['status'] = 'unsupported'
        res['why'] = str(e)
    except Exception as e:
        res['status'] = 'error'
        res['why'] = traceback.format_exc()[-1500:]
    conn.send(res)
    conn.close()


def run_tasks(program, tasks, tier, deadline):
    sem = multiprocessing.Semaphore(NPROC)
    running, results, todo = [], [], list(tasks)
    ctx = multiprocessing
    while todo or running:
        while todo and len(running) < 2 * NPROC:
            t = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=do_task, args=(program, t, b, tier, sem))
            p.start()
            b.close()
            running.append((p, a, t, time.time()))
        still = []
        for p, a, t, t0 in running:
            if a.poll(0.02):
                try:
                    results.append(a.recv())
                except EOFError:
                    results.append({'name': t.name, 'status': 'error', 'why': 'worker died', 'obligs': [], 'soft': t.soft})
                p.join()
            elif not p.is_alive():
                results.append({'name': t.name, 'status': 'error', 'why': 'worker died (%s)' % p.exitcode, 'obligs': [], 'soft': t.soft})
            elif time.time() > deadline:
                kill_tree(p.pid)
                results.append({'name': t.name, 'status': 'timeout', 'why': 'time limit', 'obligs': [], 'soft': t.soft})
            else:
                still.append((p, a, t, t0))
        running = still
    return results


def kill_tree(pid):
    try:
        kids = subprocess.run(['ps', '-o', 'pid=', '--ppid', str(pid)], capture_output=True, text=True).stdout.split()
        for k in kids:
            kill_tree(int(k))
        os.kill(pid, signal.SIGKILL)
    except Exception:
        pass


def known_findings(pid):
    r = []
    p = os.path.join(HERE, 'known-findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                k = json.loads(l)
                if k['property'] == pid and k.get('status') == 'open':
                    r.append(k)
    return r


# ------------------------------------------------------------------ main
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--no-harness', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    pid = a.property
    scratch = tempfile.mkdtemp(prefix='lpv-%s-' % pid)
    rc = 2
    try:
        rc = check(pid, a, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def check(pid, a, seed, scratch, t0):
    mod = importlib.import_module(pid)
    tier = a.tier
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    P.gen_schemas(scratch)
    h = Harness(mod, pid, scratch)
    results, program, xerr = [], None, None
    budget = 400 if tier == 'quick' else 3000
    try:
        program = P.load(scratch)
    except P.ExtractError as e:
        xerr = str(e)
    if not a.no_harness:
        h.start()
    if program is not None:
        try:
            tasks = mod.tasks(program)
            results = run_tasks(program, tasks, tier, t0 + budget)
        except Exception as e:
            xerr = 'contracts do not apply to the current source: %s' % traceback.format_exc()[-800:]
    if not a.no_harness:
        h.join(500)
    obs = [(r, o) for r in results for o in r['obligs']]
    known = known_findings(pid)
    kf_obl = {k['obligation'] for k in known if 'obligation' in k}
    failed = [(r, o) for r, o in obs if o['verdict'] == 'sat' and o['name'] not in kf_obl]
    kfailed = [(r, o) for r, o in obs if o['verdict'] == 'sat' and o['name'] in kf_obl]
    unknown = [(r, o) for r, o in obs if o['verdict'] == 'unknown']
    undone = [r for r in results if r['status'] != 'ok']
    values = []
    for _, o in failed:
        for v in o.get('notes', {}).values():
            if v not in values and len(values) < 400:
                values.append(v)
    hs, htxt, hn, hm = ('none', 'skipped', 0, 0)
    if not a.no_harness:
        hs, htxt, hn, hm = run_harness(h, scratch, tier, seed, literals(program) if program else ([], []), values)
    nob = len(obs)
    ndis = sum(1 for _, o in obs if o['verdict'] == 'unsat')
    hard = [(r, o) for r, o in failed if o['loops'] == 0 or o['tag'] != 'inv']
    viol, nfi = None, False
    if hs in ('fail', 'hang'):
        viol = 'harness'
    elif hard:
        viol, nfi = 'obligation', True
    fns = sorted({f for r in results for f in r.get('functions', [])})
    trusted = sorted({f for r in results for f in r.get('lib', [])})
    contracts = sorted({f for r in results for f in r.get('contracts', [])})
    assum = sorted({x for r in results for x in r.get('assumptions', [])})
    assum += sorted({'termination of the loop at %s is not proved' % k for r in results for k, v in r.get('variants', {}).items() if 'none found' in v})
    by = {}
    for _, o in obs:
        if o['verdict'] == 'unsat':
            by[o['backend']] = by.get(o['backend'], 0) + 1
    bounded = []
    if undone or unknown or failed:
        bounded = ['%s: %s %s' % (r['name'], r['status'], r.get('why', '')[:300]) for r in undone] + ['%s: obligation undecided: %s' % (r['name'], o['name']) for r, o in unknown] + ['%s: obligation not provable with the inferred loop invariants: %s' % (r['name'], o['name']) for r, o in failed]
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': nob, 'discharged': ndis,
            'checker_cmd': 'cd /verif && python3-vt check.py %s --tier %s' % (pid, tier),
            'trusted_base': ['lpx extractor (clang 18 AST) and the verification condition generator in /verif/lpv', 'z3 and cvc5'] + getattr(mod, 'TRUSTED', []) + ['library contract: ' + x for x in trusted],
            'discharged_by': by,
            'solver_seconds': round(sum(o['s'] for _, o in obs), 2),
            'paths': sum(r.get('paths', 0) for r in results),
            'functions_verified_from_source': fns,
            'contracts_used_at_calls': contracts,
            'tasks': [{'name': r['name'], 'status': r['status'], 'obligations': len(r['obligs']), 'paths': r.get('paths', 0), 'loops_cut_by_invariant': r.get('loops', {}), 'loop_variants': r.get('variants', {})} for r in results],
            'undischarged': bounded,
            'bounded_standin': {'harness': 'replay/%s.cpp' % pid, 'status': hs, 'cases': hn, 'distinct': hm, 'rule': 'see the header of replay/%s.cpp' % pid, 'note': 'runs the real code on generated inputs; replays counterexamples and cross-checks trusted contracts; never counted as proved'},
            'samples': [{'obligation': o['name'], 'at': o['where'], 'backend': o['backend'], 'seconds': o['s']} for _, o in obs[:6]],
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []) + assum,
        'wall_s': round(time.time() - t0, 2),
        'violations': 1 if viol else 0,
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged (%s), %d functions of /repo, harness %s (%d cases), %.1f s' % (
        pid, nob, ndis, ', '.join('%s %d' % x for x in sorted(by.items())), len(fns), hs, hn, time.time() - t0))
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for b in bounded:
        print('  undischarged: ' + b[:400])
    if xerr:
        print('  ' + xerr[:1500])
    if a.v:
        for r, o in obs:
            print('   %-8s %-10s %6.2f %s | %s @ %s' % (o['verdict'], o['backend'][:10], o['s'], r['name'], o['name'], o['where']))
    if hs != 'ok' or a.v:
        print('  harness: %s\n%s' % (hs, htxt[-3000:]))
    if viol:
        rp = os.path.join(rdir, pid + '.txt')
        with open(rp, 'w') as f:
            f.write('property %s violated\n' % pid)
            for r, o in failed:
                f.write('failed obligation: %s\n  task: %s\n  at: %s\n  back end: %s\n  counterexample: %s\n' % (o['name'], r['name'], o['where'], o['backend'], json.dumps(o.get('notes', {}))))
            f.write('harness on the real code: %s\n%s\n' % (hs, htxt))
        for r, o in failed[:8]:
            print('  failed obligation: %s (%s) at %s %s' % (o['name'], r['name'], o['where'], json.dumps(o.get('notes', {}))[:300]))
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, ' no-failing-input-found' if nfi else ''))
        return 1
    if hs == 'none' and not a.no_harness and (xerr or undone or unknown or failed):
        print('  neither proof nor harness could decide')
        return 2
    if xerr and hs != 'ok':
        return 2
    return 0


if __name__ == '__main__':
    main()
