"""Runs one property: generates the verification conditions of every contracted
function from /repo's current sources, discharges them, validates the contracts
on the compiled code, decides, writes evidence."""
import sys, os, time, json, traceback, subprocess, multiprocessing as mp, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
VERIF = build.VERIF

class Task:
    """one contract: `fn(env)` sets up the precondition, runs the real function
    body and states the postconditions"""
    def __init__(self, name, fn, units=(), extra=None, funcs=(), contracts=(), ms=10000, passes='sroa', tmax=600, quick=True, **kw):
        self.name = name; self.fn = fn; self.units = tuple(units); self.extra = extra; self.funcs = list(funcs)
        self.contracts = contracts; self.kw = kw; self.ms = ms; self.passes = passes; self.tmax = tmax; self.quick = quick

class Prop:
    def __init__(self, id, tasks, native=(), trusted=(), assumptions=(), tmax=700):
        self.id = id; self.tasks = tasks; self.native = list(native); self.trusted = list(trusted)
        self.assumptions = list(assumptions); self.tmax = tmax

BASE_TRUSTED = ['clang 18 front end (C++ source to LLVM IR, unoptimised, -O0 with always_inline left as calls, then mem2reg/sroa)',
    'the verification-condition generator in /verif/vc (symbolic execution of that IR, loop rules)',
    'z3 4.x/5.x and cvc5 (an unsat answer discharges an obligation)']

def _solve_one(o, ms):
    import solve
    t = solve.smt2(o)
    q = any(solve.has_q(h) for h in o.hyps) or solve.has_q(o.goal)
    return solve.job((t, q, ms, True))

def run_task(task, bc, tier, q):
    t0 = time.time()
    res = {'name': task.name, 'funcs': task.funcs, 'obls': [], 'status': 'error', 'used': [], 'contracts': [], 'assumptions': []}
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
    except Exception: pass
    try:
        from rt import Env, dem, Unsupported
        import llvmir, z3, solve, stdc
        z3.set_param('memory_max_size', 5000); z3.set_param('warning', False)
        def alarm(*a): raise Unsupported('time limit of the task')
        signal.signal(signal.SIGALRM, alarm); signal.alarm(int(task.tmax if tier == 'thorough' else min(task.tmax, 300)))
        cs = task.contracts() if callable(task.contracts) else task.contracts
        e = Env(llvmir.Module(bc), contracts=cs, **task.kw)
        try:
            task.fn(e)
            res['status'] = 'generated'
        except Unsupported as ex:
            res['status'] = 'unsupported'; res['why'] = str(ex)
        cx = e.cx
        res['gen_s'] = time.time() - t0 
        ms = task.ms if tier == 'quick' else task.ms * 4
        # vacuity: the assumptions at the end of the contract must not be contradictory
        if res['status'] == 'generated':
            s = z3.Solver(); s.set('timeout', 2000); s.set('mbqi', False); s.set('auto_config', False)
            s.add(*cx.all_facts()); s.add(*[x if not isinstance(x, bool) else z3.BoolVal(x) for x in e.st.pc])
            if s.check() == z3.unsat:
                res['status'] = 'vacuous'; res['why'] = 'contradictory hypotheses: the postcondition would hold vacuously'
            posts = [o for o in cx.obls if o.kind in ('post', 'lemma', 'race', 'check')]
            if not [o for o in cx.obls if o.kind == 'post']:
                res['status'] = 'vacuous'; res['why'] = 'no postcondition was reached'
        cache = {}
        worst = 'proved'
        for o in cx.obls:
            r = None
            if o.status is None:
                cx.unfold(o)
                goal = z3.simplify(o.goal)
                key = (goal.get_id(), tuple(sorted(h.get_id() for h in o.hyps)))
                if key in cache: st = cache[key]; o.status, o.by, o.time, o.model, o.why = st[0], st[1], 0, st[3], st[4]
                else:
                    st = _solve_one(o, ms)
                    o.status = {'unsat': 'discharged', 'sat': 'refuted', 'unknown': 'unknown'}[st[0]]
                    o.model, o.by, o.time, o.why = st[1], st[2], st[3], st[4]
                    cache[key] = (o.status, o.by, o.time, o.model, o.why)
            elif o.status == 'trivial': o.by = 'normaliser'
            quant = any(solve.has_q(h) for h in o.hyps) or solve.has_q(o.goal)
            res['obls'].append({'name': o.name, 'kind': o.kind, 'status': o.status, 'by': o.by, 'time': round(o.time, 3), 'model': o.model if o.status == 'refuted' else None, 'why': getattr(o, 'why', ''), 'quant': quant,
                'smt': None if o.status in ('discharged', 'trivial') else solve.smt2(o)[:20000]})
            if o.status == 'unknown' and worst == 'proved': worst = 'unknown'
            if o.status == 'refuted': worst = 'refuted'
            if worst != 'proved' and time.time() - t0 > (task.tmax if tier == 'thorough' else min(task.tmax, 300)) * 0.8: break
        if res['status'] == 'generated': res['status'] = worst
        elif worst == 'refuted' and res['status'] == 'unsupported': res['status'] = 'refuted'
        demangled = lambda l: sorted({dem(n) for n in l})
        res['used'] = demangled(cx.used); res['contracts'] = sorted(cx.used_contracts); res['assumptions'] = sorted(cx.assumptions)
        res['solver_s'] = sum(o.time for o in cx.obls) + cx.quick_t
        res['steps'] = cx.steps
    except BaseException as ex:
        if type(ex).__name__ == 'Unsupported': res['status'] = 'unsupported'; res['why'] = str(ex)
        else:
            res['status'] = 'error'; res['why'] = traceback.format_exc()[-2500:]
    res['wall_s'] = time.time() - t0
    signal.alarm(0)
    q.put(res)

def pool(tasks, tier, nproc=8, tmax=700, verbose=False, stop=None):
    """run every task in its own process"""
    t0 = time.time()
    mods = {}
    for t in tasks: mods.setdefault((t.units, t.extra, t.passes), None)
    for k in mods:
        try: mods[k] = build.module(k[0], k[1], k[2])
        except build.BuildError as ex: mods[k] = ex
    results = {}; running = []; todo = list(tasks); stopped = None
    ctx = mp.get_context('fork')
    while todo or running:
        while todo and stopped and time.time() - stopped > 15:
            t = todo.pop(0)
            results[t.name] = {'name': t.name, 'funcs': t.funcs, 'status': 'stopped', 'why': 'stopped: the running code already shows a violation', 'obls': [], 'used': [], 'contracts': [], 'assumptions': [], 'wall_s': 0}
        while todo and len(running) < nproc:
            t = todo.pop(0)
            m = mods[(t.units, t.extra, t.passes)]
            if isinstance(m, Exception):
                results[t.name] = {'name': t.name, 'funcs': t.funcs, 'status': 'unsupported', 'why': 'the contract no longer compiles against the sources: ' + str(m)[:1500], 'obls': [], 'used': [], 'contracts': [], 'assumptions': [], 'wall_s': 0}
                continue
            q = ctx.SimpleQueue() if False else ctx.Queue()
            p = ctx.Process(target=run_task, args=(t, m, tier, q)); p.start()
            running.append((t, p, q, time.time()))
        nr = []
        for t, p, q, ts in running:
            try:
                r = q.get(timeout=0.02)
                p.join(5)
                if p.is_alive(): p.kill()
                results[t.name] = r
                if verbose: show(r)
                continue
            except Exception: pass
            lim = t.tmax * 1.3 + 60 if tier == 'thorough' else min(t.tmax, 300) + 30
            if not p.is_alive() and q.empty():
                results[t.name] = {'name': t.name, 'funcs': t.funcs, 'status': 'unsupported', 'why': 'verifier process died (memory or crash), exit %s' % p.exitcode, 'obls': [], 'used': [], 'contracts': [], 'assumptions': [], 'wall_s': time.time() - ts}
                continue
            if stop and not stopped and stop(): stopped = time.time()
            if stopped and time.time() - stopped > 15:
                p.kill()
                results[t.name] = {'name': t.name, 'funcs': t.funcs, 'status': 'stopped', 'why': 'stopped: the running code already shows a violation', 'obls': [], 'used': [], 'contracts': [], 'assumptions': [], 'wall_s': time.time() - ts}
                continue
            if time.time() - ts > lim or time.time() - t0 > tmax:
                p.kill()
                results[t.name] = {'name': t.name, 'funcs': t.funcs, 'status': 'unsupported', 'why': 'time limit', 'obls': [], 'used': [], 'contracts': [], 'assumptions': [], 'wall_s': time.time() - ts}
                continue
            nr.append((t, p, q, ts))
        running = nr
        if running: time.sleep(0.02)
    return [results[t.name] for t in tasks]

def show(r, full=False):
    n = len(r['obls']); d = sum(o['status'] in ('discharged', 'trivial') for o in r['obls'])
    print('%-44s %-12s %d/%d  %.1fs (gen %.1f, solver %.1f) %s' % (r['name'], r['status'], d, n, r['wall_s'], r.get('gen_s', 0), r.get('solver_s', 0), r.get('why', '')[:600] if r['status'] in ('unsupported', 'vacuous') else ''))
    if r['status'] == 'error': print('\n'.join(r.get('why').split('\n')[-6:]))
    for o in r['obls']:
        if full or o['status'] not in ('discharged', 'trivial'):
            print('     %-10s %-10s %-60s %.2f %s %s' % (o['status'], o['kind'], o['name'][:90], o['time'], o['by'], o['why']))
    sys.stdout.flush()
