"""Discharges obligations: z3 (several strategies) then cvc5, in parallel
processes with time limits.  Only 'unsat' of hyps & ~goal discharges."""
import z3, time, os, multiprocessing as mp, signal, sys
from exec2 import has_q
def smt2(o, vac=False):
    s = z3.Solver()
    s.add(*o.hyps)
    if not vac: s.add(z3.Not(o.goal))
    return s.to_smt2()
def _z3(txt, ms, opts, model):
    c = z3.Context()
    s = z3.Solver(ctx=c)
    s.set('timeout', ms)
    for k, v in opts.items(): s.set(k, v)
    s.from_string(txt)
    r = s.check()
    m = None
    if r == z3.sat and model:
        try: m = [(str(d), str(s.model()[d])[:400]) for d in s.model().decls()][:200]
        except Exception: m = None
    why = s.reason_unknown() if r == z3.unknown else ''
    return str(r), m, why
def _nopat(t):
    """drops pattern annotations that z3 prints with let (cvc5 does not read those)"""
    out = []; i = 0
    while True:
        j = t.find(':pattern (', i)
        if j < 0: out.append(t[i:]); break
        k = j + 10; d = 1
        while d: c = t[k]; d += (c == '(') - (c == ')'); k += 1
        out.append(t[i:j] if '(let ' in t[j:k] else t[i:k]); i = k
    return ''.join(out)
def _cvc5(txt, ms):
    import subprocess
    txt = _nopat(txt)
    try:
        p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % ms, '--full-saturate-quant', '-'], input=txt if txt.lstrip().startswith('(set-logic') else '(set-logic ALL)\n' + txt, capture_output=True, text=True, timeout=ms / 1000 + 5)
        out = p.stdout.strip().split('\n')[0] if p.stdout.strip() else 'unknown'
        return out if out in ('sat', 'unsat') else 'unknown'
    except Exception: return 'unknown'
def job(a):
    txt, quant, ms, cv = a
    t0 = time.time()
    tried = []
    try:
        if quant:
            r, m, why = _z3(txt, min(ms, 3000), {'mbqi': False, 'auto_config': False}, False)
            if r == 'unsat': return r, None, 'z3', time.time() - t0, ''
            if cv:
                r = _cvc5(txt, min(ms, 4000))
                if r == 'unsat': return r, None, 'cvc5', time.time() - t0, ''
            r, m, why = _z3(txt, ms, {'mbqi': False, 'auto_config': False, 'random_seed': 7}, False)
            if r == 'unsat': return r, None, 'z3', time.time() - t0, ''
            r, m, why = _z3(txt, ms, {}, True)
            if r != 'unknown': return r, m, 'z3', time.time() - t0, why
            if cv:
                r = _cvc5(txt, ms)
                if r == 'unsat': return r, None, 'cvc5', time.time() - t0, ''
            return 'unknown', None, '', time.time() - t0, why
        r, m, why = _z3(txt, ms, {}, True)
        if r != 'unknown': return r, m, 'z3', time.time() - t0, why
        if cv:
            r = _cvc5(txt, ms)
            if r == 'unsat': return r, None, 'cvc5', time.time() - t0, ''
        return 'unknown', None, '', time.time() - t0, why
    except Exception as e:
        return 'unknown', None, '', time.time() - t0, 'error: %s' % str(e)[:300]
def _guarded(a, q):
    try: q.put(job(a))
    except BaseException as e: q.put(('unknown', None, '', 0, 'crash %s' % e))
_pool = None
def run_jobs(jobs, nproc=8, hard=None):
    """run each job in the pool"""
    if not jobs: return []
    with mp.get_context('fork').Pool(min(nproc, len(jobs)), maxtasksperchild=40) as p:
        res = [p.apply_async(job, (j,)) for j in jobs]
        out = []
        for r, j in zip(res, jobs):
            lim = (j[2] * (6 if j[1] else 3)) / 1000 + 60
            try: out.append(r.get(timeout=lim * (1 + len(jobs) // nproc)))
            except mp.TimeoutError: out.append(('unknown', None, '', lim, 'hard timeout'))
        p.terminate()
    return out
def discharge(obls, ms=10000, cv=True, nproc=8):
    todo = []; cache = {}
    for o in obls:
        if o.status is not None: continue
        if z3.is_false(z3.simplify(o.goal)) and not o.hyps:
            o.status = 'refuted'; continue
        t = smt2(o)
        if t in cache: cache[t].append(o); continue
        cache[t] = [o]
        todo.append((t, any(has_q(h) for h in o.hyps) or has_q(o.goal), ms, cv))
    res = run_jobs(todo, nproc)
    for (t, q, _, _), r in zip(todo, res):
        for i, o in enumerate(cache[t]):
            o.status = {'unsat': 'discharged', 'sat': 'refuted', 'unknown': 'unknown'}[r[0]]
            o.model = r[1]; o.by = r[2]; o.time = r[3] if i == 0 else 0; o.why = r[4]
    return obls
