"""Native side: the real library compiled from /repo, driven by oracles in
/verif/native.  Used to validate contracts on the running code and to turn a
failed obligation into a failing input."""
import os, subprocess, time, json, re
import build
MPILIBS = ['-L/usr/lib/x86_64-linux-gnu/openmpi/lib', '-L/usr/lib/x86_64-linux-gnu', '-lmpi', '-lz', '-lpthread']
ENV = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_btl='self,vader', OMPI_MCA_rmaps_base_oversubscribe='1',
    OMPI_MCA_plm_rsh_agent='', OMPI_MCA_btl_vader_single_copy_mechanism='none', UBSAN_OPTIONS='print_stacktrace=0', ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1')
class Native:
    def __init__(self, name, args=(), np=1, san=True, timeout=300, src=None, lib=True):
        self.name = name; self.args = list(args); self.np = np; self.san = san; self.timeout = timeout; self.src = src or name; self.lib = lib
def run(n, tier, seed, tmp):
    """returns dict(status=ok|fail|error, cases, out)"""
    t0 = time.time()
    r = {'name': n.name, 'np': n.np, 'status': 'error', 'cases': 0, 'out': ''}
    try:
        src = open(os.path.join(build.VERIF, 'native', n.src + '.cpp')).read()
        libs = ([build.library(n.san)] if n.lib else []) + MPILIBS
        ex = ['-I' + os.path.join(build.VERIF, 'native')] + (['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-g1'] if n.san else [])
        exe = build.native(n.src + ('_san' if n.san else ''), src + '\n//' + open(os.path.join(build.VERIF, 'native', 'common.hpp')).read().replace('\n', '\n//'), '-O1', ex, (), libs)
    except build.BuildError as e:
        r['out'] = 'does not build: ' + str(e)[:2000]; r['wall_s'] = time.time() - t0; return r
    cmd = [exe, tier, str(seed)] + n.args
    if n.np > 1: cmd = ['mpirun', '--allow-run-as-root', '--oversubscribe', '-np', str(n.np)] + cmd
    env = dict(ENV, TMPDIR=tmp, HOME=tmp)
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, errors='replace', timeout=n.timeout * (3 if tier == 'thorough' else 1), cwd=tmp, env=env)
        out = p.stdout + p.stderr
        m = re.search(r'CASES (\d+)', out)
        if m: r['cases'] = int(m.group(1))
        fails = [l for l in out.split('\n') if 'FAIL' in l]
        if fails: r['status'] = 'fail'; r['out'] = '\n'.join(fails[:20]) + '\n---\n' + out[-6000:]
        elif p.returncode == 0 and m: r['status'] = 'ok'
        elif p.returncode != 0 and ('ERROR: AddressSanitizer' in out or 'runtime error:' in out or p.returncode in (-6, -11, -8, 134, 139, 136, 1)) :
            r['status'] = 'fail'; r['out'] = 'exit %d\n' % p.returncode + out[:3000] + '\n...\n' + out[-4000:]
        else: r['out'] = 'exit %d\n' % p.returncode + out[-3000:]
    except subprocess.TimeoutExpired as e:
        r['status'] = 'timeout'; r['out'] = ((e.stdout or b'')[-2000:]).decode(errors='replace') if isinstance(e.stdout, bytes) else str(e.stdout)[-2000:]
    r['wall_s'] = time.time() - t0
    r['cmd'] = ' '.join(cmd)
    return r
