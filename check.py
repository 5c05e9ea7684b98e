#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough] | --replay <file>
Decides one property: regenerates the obligations of every function contract the property rests
on from /repo's current sources and discharges them (see DESIGN.md)."""
import sys, os, json, time, importlib, tempfile, shutil, subprocess, traceback, random
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import resource
from vcgen import task as T, par
import specs.index as index

JOBS = int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 4)

def fork_map(fn, items, jobs, limit, tokens=False):
    """run fn(item) in forked children, at most `jobs` at a time -> {index: result | None}"""
    res = {}; running = {}; todo = list(range(len(items)))
    if tokens: par.setup(jobs)
    while todo or running:
        while todo and len(running) < jobs and (not tokens or par.acquire() or not running):
            i = todo.pop(0); r, w = os.pipe(); pid = os.fork()
            if pid == 0:
                try:
                    os.close(r); os.setpgid(0, 0)
                    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
                    out = fn(items[i])
                    with os.fdopen(w, 'w') as f: json.dump(out, f)
                except BaseException:
                    try: os.write(2, traceback.format_exc().encode())
                    except BaseException: pass
                    os._exit(1)
                os._exit(0)
            os.close(w); running[r] = (i, pid, time.time(), [])
        import select
        rd, _, _ = select.select(list(running), [], [], 1.0)
        for fd in rd:
            i, pid, t0, buf = running[fd]; d = os.read(fd, 1 << 16)
            if d: buf.append(d); continue
            os.close(fd); os.waitpid(pid, 0); del running[fd]
            if tokens: par.release()
            try: res[i] = json.loads(b''.join(buf))
            except Exception: res[i] = None
        for fd, (i, pid, t0, buf) in list(running.items()):
            if time.time() - t0 > limit:
                try: os.killpg(pid, 9)
                except OSError: os.kill(pid, 9)
                os.waitpid(pid, 0); os.close(fd); del running[fd]; res[i] = None
                if tokens: par.release()
    return res

def prove(arg):
    task, bc = arg
    if task.bounded and task.native:       # bounded stand-in: the contract is only evaluated on generated inputs
        from vcgen import concrete
        tmp = os.path.dirname(bc); so((task.harness, task.std, task.defs), tmp); t0 = time.time()
        f = concrete.campaign(task, [], tmp, task.native, 1)
        return {'task': task.name, 'root': task.root, 'obligations': [], 'error': None, 'loops': [], 'fns': [], 'wall_s': time.time() - t0, 'vacuity': 'bounded',
                'failed': [{'kind': 'bounded', 'name': '; '.join(f['failed'])[:300], 'status': 'fails', 'where': f['how'], 'model': f['input']}] if f else []}
    m = T.load_module(bc, [task.root], task.noinline)
    return T.execute(task, m)

def main():
    if sys.argv[1] == '--replay': return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[sys.argv.index('--tier') + 1] if '--tier' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time(); limit = 780 if tier == 'quick' else 7200
    tasks = index.tasks(pid, tier)
    if not tasks: print('no task for', pid); return 2
    tmp = tempfile.mkdtemp(prefix='vp-%s-' % pid)
    try: return run(pid, tier, seed, tasks, tmp, t0, limit)
    finally: shutil.rmtree(tmp, ignore_errors=True)

def run(pid, tier, seed, tasks, tmp, t0, limit):
    # 1. the real code, compiled from the current tree
    units = sorted({(t.harness, t.std, t.defs) for t in tasks})
    def comp(u):
        try: return T.compile_bc(u[0], tmp, u[1], u[2])
        except Exception as e: return {'error': str(e)}
    bcs = fork_map(comp, units, JOBS, limit)
    bcs = {u: bcs[i] for i, u in enumerate(units)}
    broken = {u: (b or {}).get('error', 'compilation died') for u, b in bcs.items() if not isinstance(b, str)}
    # 2. proof obligations, one process per root function
    todo = sorted([t for t in tasks if (t.harness, t.std, t.defs) not in broken], key=lambda t: -t.weight)
    left = max(60, limit - (time.time() - t0))
    rs = fork_map(prove, [(t, bcs[(t.harness, t.std, t.defs)]) for t in todo], JOBS, left * .8, tokens=True)
    results = []
    for i, t in enumerate(todo):
        r = rs.get(i) or {'task': t.name, 'root': t.root, 'obligations': [], 'failed': [], 'error': 'the prover process died or ran out of time', 'loops': [], 'fns': [], 'wall_s': 0}
        results.append((t, r))
    for t in tasks:
        u = (t.harness, t.std, t.defs)
        if u in broken: results.append((t, {'task': t.name, 'root': t.root, 'obligations': [], 'failed': [], 'error': broken[u], 'loops': [], 'fns': [], 'wall_s': 0}))
    bad = [(t, r) for t, r in results if r['error'] or r['failed']]
    known = index.known(pid)
    # 3. replay
    violations = []; knownhits = []
    rest = []
    for t, r in bad:
        k = [x for x in known if x.get('task') == t.name and not r['error'] and all(f['name'] in x.get('obligations', []) for f in r['failed'])]
        (knownhits if k else rest).append((t, r))
    if rest:
        secs = 60 if tier == 'quick' else 240
        def rep(x):
            t, r = x
            models = [f['model'] for f in r['failed'] if f.get('model')]
            from vcgen import concrete
            return concrete.campaign(t, models, tmp, secs, seed)
        # build the replay objects first (serially per unit)
        uu = sorted({(t.harness, t.std, t.defs) for t, r in rest} - set(broken))
        fork_map(lambda u: so(u, tmp), uu, JOBS, 300)
        sel = [x for x in rest if (x[0].harness, x[0].std, x[0].defs) not in broken]
        sel.sort(key=lambda x: (not x[1]['failed'], x[0].name)); sel = sel[:2 * JOBS]
        if len(sel) > JOBS: secs = 30
        found = fork_map(rep, sel, JOBS, secs + 60)
        os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
        for i, (t, r) in enumerate(sel): r['found'] = found.get(i)
        for t, r in rest: violations.append((t, r))
    # 4. evidence
    ev = evidence(pid, tier, seed, results, tmp, t0, violations, broken, units)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    for x in known:
        if x.get('print', True): print('KNOWN-FINDING: property=%s %s' % (pid, x['what']))
    print('%s: %d contracts, %d obligations, %d discharged, %.1f s' % (pid, len(results), ev['coverage']['obligations'], ev['coverage']['discharged'], time.time() - t0))
    if not violations: return 0
    violations.sort(key=lambda x: (not x[1].get('found'), x[0].name))
    strong = [v for v in violations if v[1].get('found')]
    for t, r in (strong or violations)[:3]:
        path = os.path.join(HERE, 'replay', '%s-%s.json' % (pid, t.name))
        f = r.get('found')
        json.dump({'property': pid, 'task': t.name, 'harness': t.harness, 'root': t.root, 'error': r['error'], 'failed_obligations': r['failed'],
                   'input': f['input'] if f else None, 'observed': f['failed'] if f else None, 'how': f['how'] if f else None,
                   'replay': 'python3-vt /verif/check.py --replay ' + path}, open(path, 'w'), indent=1)
        for x in r['failed']: print('  failed obligation [%s] %s: %s (%s) at %s' % (t.name, x['kind'], x['name'], x['status'], x['where']))
        if r['error']: print('  [%s] %s' % (t.name, r['error'][:600]))
        if f: print('  on the real code, input %s: %s' % (json.dumps(f['input'])[:400], '; '.join(f['failed'])[:400]))
        print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if f else ' no-failing-input-found'))
    return 1
def so(u, tmp):
    try: return T.compile_so(u[0], tmp, u[1], u[2])
    except Exception as e: return None

def evidence(pid, tier, seed, results, tmp, t0, violations, broken, units):
    proved = [(t, r) for t, r in results if not t.bounded]
    nob = sum(len(r['obligations']) + r.get('inv_obl', 0) for t, r in proved)
    ndis = sum(sum(1 for o in r['obligations'] if o[3] == 'proved') + r.get('inv_obl', 0) for t, r in proved if not r['error'])
    be = {}
    for t, r in results:
        for k, v in r.get('backends', {}).items(): be[k] = be.get(k, 0) + v
    fns = sorted({f for t, r in proved for f in r.get('fns', [])})
    dem = subprocess.run(['c++filt'], input='\n'.join(fns), capture_output=True, text=True).stdout.split('\n') if fns else []
    kinds = {}
    for t, r in results:
        for o in r['obligations']: kinds[o[0]] = kinds.get(o[0], 0) + 1
    cov = {
        'obligations': nob, 'discharged': ndis,
        'checker_cmd': 'python3-vt /verif/check.py %s --tier %s' % (pid, tier),
        'trusted_base': index.TRUSTED,
        'contracts': len(proved), 'contract_roots': sorted(t.name for t, r in proved),
        'functions_inlined_or_verified': len(dem), 'functions': [d[:200] for d in dem][:400],
        'obligation_kinds': kinds, 'discharged_by_simplification': sum(r.get('trivial', 0) or 0 for t, r in results),
        'loop_invariant_obligations': sum(r.get('inv_obl', 0) for t, r in results),
        'loops_cut': [dict(l, task=t.name) for t, r in results for l in r.get('loops', []) if isinstance(l, dict)][:200],
        'back_ends': be, 'solver_queries': sum(r.get('queries', 0) for t, r in results), 'solver_s': round(sum(r.get('solver_s', 0) for t, r in results), 2),
        'vacuity': {t.name: r.get('vacuity') for t, r in results},
        'bounded_not_proved': [{'contract': t.name, 'bound': t.bounded, 'obligations': len(r['obligations'])} for t, r in results if t.bounded],
        'undecided': [{'contract': t.name, 'error': r['error'], 'failed': r['failed']} for t, r in results if r['error'] or r['failed']],
    }
    cov['loops_cut'] = [{k: v for k, v in l.items() if k != 't'} for l in cov['loops_cut']]
    return {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': cov, 'assumptions': index.assumptions(pid), 'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}

def replay(path):
    j = json.load(open(path)); t = index.task(j['task'])
    if not j['input']: print('no concrete input recorded; failed obligations:', json.dumps(j['failed_obligations'], indent=1)); return 1
    tmp = tempfile.mkdtemp(prefix='vp-replay-')
    try:
        from vcgen import concrete
        f = concrete.campaign(t, [j['input']], tmp, 2, 1)
        print('input', j['input']); print('observed', f and f['failed'])
        return 1 if f else 0
    finally: shutil.rmtree(tmp, ignore_errors=True)
if __name__ == '__main__': sys.exit(main())
