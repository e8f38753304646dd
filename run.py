#!/usr/bin/env python3-vt
"""run.py <property> [quick|thorough]: decides one property for /repo's current tree."""
import sys, os, json, time, tempfile, shutil, importlib, hashlib, re
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vc')); sys.path.insert(0, os.path.join(HERE, 'props'))
import prop, build, native
from concurrent.futures import ThreadPoolExecutor

def known_findings():
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) id=(\S+) match=/(.*?)/ (.*)', l.strip())
            if m: out.append((m.group(1), m.group(2), re.compile(m.group(3)), m.group(4)))
    return out
def baseline(pid):
    p = os.path.join(HERE, 'baseline.json')
    return json.load(open(p)).get(pid, {}) if os.path.exists(p) else {}

def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = importlib.import_module(pid.lower())
    P = mod.PROP
    budget = 600 if tier == 'quick' else 14000
    tmp = tempfile.mkdtemp(prefix='omega_verif_')
    os.chmod(tmp, 0o777)
    replay_dir = os.path.join(HERE, 'build', 'replay'); os.makedirs(replay_dir, exist_ok=True)
    try:
        # native side: contracts evaluated on the running code (also gives failing inputs)
        libs = {(n.san, getattr(n, 'variant', '')) for n in P.native if n.lib}
        lib_err = None
        nres = []
        ex = ThreadPoolExecutor(3)
        def do_native():
            out = []
            for n in P.native:
                out.append(native.run(n, tier, seed, tmp))
            return out
        fut = ex.submit(do_native)
        tasks = [t for t in P.tasks if t.quick or tier == 'thorough']
        kfs = [k for k in known_findings() if k[0] == pid]
        def stop():
            # the running code already fails its contract: no need to wait for slow proofs
            if tier == 'thorough' or not fut.done(): return False
            for r in fut.result():
                if r['status'] == 'fail' and any(not any(k[2].search(l) for k in kfs) for l in r['out'].split('\n') if 'FAIL' in l): return True
            return False
        res = prop.pool(tasks, tier, nproc=7, tmax=budget - 60, stop=stop) if tasks else []
        nres = fut.result()
        # second chance for obligations a solver gave up on (load, timeouts)
        again = [t for t, r in zip(tasks, res) if r['status'] in ('unknown',) or (r['status'] == 'unsupported' and 'time limit' in r.get('why', ''))]
        if again and not stop() and time.time() - t0 < budget * 0.4:
            for t in again: t.ms *= 3
            r2 = {r['name']: r for r in prop.pool(again, tier, nproc=4, tmax=budget - (time.time() - t0) - 30)}
            res = [r2.get(r['name'], r) for r in res]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return decide(P, pid, tier, seed, res, nres, t0, replay_dir)

def decide(P, pid, tier, seed, res, nres, t0, replay_dir):
    base = baseline(pid)
    kf = [k for k in known_findings() if k[0] == pid]
    viol = []      # (text for the replay file, has_input)
    notes = []
    seen_known = set()
    nat_ok = bool(nres) and all(r['status'] == 'ok' for r in nres)
    for r in nres:
        if r['status'] == 'fail':
            lines = [l for l in r['out'].split('\n') if 'FAIL' in l]
            rest = []
            for l in lines:
                for k in kf:
                    if k[2].search(l): seen_known.add(k[1]); break
                else: rest.append(l)
            if rest or not lines:
                viol.append(('contract evaluated on the running code fails\noracle: /verif/native/%s.cpp\ncommand: %s\n\n%s\n' % (r['name'], r.get('cmd'), r['out']), True, (rest[:1] or [r['out'][:200].replace('\n', ' ')])[0]))
        elif r['status'] in ('error', 'timeout'):
            notes.append('oracle %s gave no answer (%s): %s' % (r['name'], r['status'], r['out'][-600:]))
    obligations = discharged = 0
    byback = {}; bounded = []; undecided = []; proved = []; solver_s = 0
    bykind = {}
    for r in res:
        n = len(r['obls']); d = sum(o['status'] in ('discharged', 'trivial') for o in r['obls'])
        obligations += n; discharged += d; solver_s += r.get('solver_s', 0)
        for o in r['obls']:
            if o['status'] in ('discharged', 'trivial'): byback[o['by'] or 'z3'] = byback.get(o['by'] or 'z3', 0) + 1; bykind[o['kind']] = bykind.get(o['kind'], 0) + 1
        if r['status'] == 'proved': proved.append(r['name']); continue
        if r['status'] == 'stopped': notes.append(r['name'] + ': ' + r['why']); continue
        failed = [o for o in r['obls'] if o['status'] not in ('discharged', 'trivial')]
        was = base.get(r['name']) == 'proved'
        for k in kf:
            if k[2].search('OBLIGATION ' + r['name']): seen_known.add(k[1]); was = False
        # a failed proof step (lemma) is not by itself a failed property: the oracle decides then
        refuted = [o for o in failed if o['status'] == 'refuted' and (o['kind'] != 'lemma' or not nat_ok)]
        nofallback = [o for o in failed if o['kind'] in ('race',) ]
        if was and (refuted or (failed and r['status'] == 'unknown' and (not nat_ok or nofallback))):
            o = (refuted or nofallback or failed)[0]
            viol.append(('obligation not discharged\ncontract: %s\nfunction(s): %s\nobligation: %s (%s)\nverifier: %s %s\ncounterexample of the verifier: %s\n\nSMT-LIB:\n%s\n' % (r['name'], ', '.join(r['used'][:12]), o['name'], o['kind'], o['status'], o['why'], json.dumps(o['model'], indent=1) if o['model'] else 'none', o['smt']), False, '%s: %s' % (r['name'], o['name'])))
        else:
            bounded.append('%s: %s %s' % (r['name'], r['status'], (r.get('why', '') or '; '.join('%s [%s]' % (o['name'], o['status']) for o in failed[:4]))[:400]))
    for k in kf:
        if k[1] in seen_known: print('KNOWN-FINDING: property=%s %s' % (pid, k[3]))
    for f in os.listdir(replay_dir):
        if f.startswith(pid + '-'):
            try: os.unlink(os.path.join(replay_dir, f))
            except OSError: pass
    status = 0
    viol.sort(key=lambda v: not v[1])
    if viol:
        status = 1
        path = os.path.join(replay_dir, '%s-%s.txt' % (pid, hashlib.sha256(viol[0][0].encode()).hexdigest()[:8]))
        open(path, 'w').write('property %s\n\n' % pid + '\n\n=====\n\n'.join(v[0] for v in viol))
        for v in viol[:8]: print('  ' + v[2][:300])
        print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if viol[0][1] else ' no-failing-input-found'))
    funcs = sorted({f for r in res for f in r['used']})
    assum = sorted({a for r in res for a in r['assumptions']} | set(P.assumptions))
    cases = sum(r['cases'] for r in nres)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof' if P.tasks else 'other', 'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
        'assumptions': assum,
        'coverage': {'obligations': obligations, 'discharged': discharged, 'checker_cmd': 'python3-vt run.py %s %s' % (pid, tier),
            'trusted_base': prop.BASE_TRUSTED + P.trusted + ['contract assumed: ' + c for c in sorted({c for r in res for c in r['contracts']})],
            'contracts_proved': len(proved), 'contracts_total': len(res), 'contracts': [{'name': r['name'], 'status': r['status'], 'obligations': len(r['obls']), 'wall_s': round(r['wall_s'], 2)} for r in res],
            'functions_executed_symbolically': funcs, 'obligations_by_kind': bykind, 'obligations_by_backend': byback, 'solver_s': round(solver_s, 2),
            'bounded_not_proved': bounded, 'native_validation': [{'oracle': r['name'], 'np': r['np'], 'status': r['status'], 'cases': r['cases'], 'wall_s': round(r.get('wall_s', 0), 2)} for r in nres],
            'evaluations': cases, 'notes': notes,
            'explanation': 'Every obligation is generated from the current sources and discharged for all inputs; native_validation re-evaluates the same contracts on the compiled library for concrete inputs (bounded, not counted as proof).'}}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s %s: %d/%d contracts proved, %d/%d obligations, native %s, %d cases, %.0f s' % (pid, tier, len(proved), len(res), discharged, obligations, ','.join(r['name'] + ':' + r['status'] for r in nres), cases, time.time() - t0))
    for b in bounded: print('  not proved (bounded stand-in): ' + b[:300])
    for n in notes: print('  note: ' + n[:1500])
    if os.environ.get('VERIF_WRITE_BASELINE'):
        p = os.path.join(HERE, 'baseline.json')
        B = json.load(open(p)) if os.path.exists(p) else {}
        B[pid] = {r['name']: r['status'] for r in res}
        json.dump(B, open(p, 'w'), indent=1, sort_keys=True)
    # no answer at all: nothing proved and nothing ran
    if status == 0 and not nat_ok and (bounded or not res): return 2
    return status
if __name__ == '__main__':
    sys.exit(main())
