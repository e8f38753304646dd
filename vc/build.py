"""Compiles /repo's current sources to LLVM IR, once per (source tree, unit)."""
import os, subprocess, hashlib, sys
REPO = os.environ.get('OMEGA_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('OMEGA_VERIF_BUILD', os.path.join(VERIF, 'build'))
CLANG = '/usr/lib/llvm-18/bin/clang++'
OPT = '/usr/lib/llvm-18/bin/opt'
MPI = '/usr/lib/x86_64-linux-gnu/openmpi/include'
CONFIG = '''#ifndef OMEGA_H_CONFIG_H
#define OMEGA_H_CONFIG_H
#define OMEGA_H_USE_MPI
#define OMEGA_H_USE_ZLIB
#define OMEGA_H_IS_SHARED
#define OMEGA_H_SEMVER "9.34.13"
#define OMEGA_H_COMMIT "unknown"
#define OMEGA_H_CXX_FLAGS ""
#define OMEGA_H_CMAKE_ARGS ""
#define OMEGA_H_VERSION_MAJOR 9
#define OMEGA_H_VERSION_MINOR 34
#define OMEGA_H_VERSION_PATCH 13
#endif
'''
def incdir():
    d = os.path.join(BUILD, 'inc'); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, 'Omega_h_config.h')
    if not os.path.exists(p) or open(p).read() != CONFIG:
        tmp = p + '.%d' % os.getpid(); open(tmp, 'w').write(CONFIG); os.replace(tmp, p)
    return d
_th = None
def treehash():
    """content hash of everything a unit can include"""
    global _th
    if _th is None:
        h = hashlib.sha256(open(__file__, 'rb').read())
        for root in ('src', 'tpl'):
            for dp, dn, fn in sorted(os.walk(os.path.join(REPO, root))):
                dn.sort()
                for f in sorted(fn):
                    if f.endswith(('.hpp', '.cpp', '.h', '.c', '.inl', '.in')):
                        p = os.path.join(dp, f)
                        h.update(p.encode()); h.update(open(p, 'rb').read())
        _th = h.hexdigest()[:20]
    return _th
def flags(defs=()):
    return ['-std=c++14', '-I' + incdir(), '-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(REPO, 'tpl'), '-I' + MPI] + ['-D' + d for d in defs]
class BuildError(Exception): pass
def bitcode(name, text, passes='sroa', defs=(), exc=True):
    """compile harness text (which #includes the real sources) to bitcode"""
    key = hashlib.sha256((treehash() + text + passes + ' '.join(defs) + str(exc)).encode()).hexdigest()[:16]
    d = os.path.join(BUILD, 'bc'); os.makedirs(d, exist_ok=True)
    out = os.path.join(d, '%s-%s.bc' % (name, key))
    if os.path.exists(out): return out
    for f in os.listdir(d):
        if f.startswith(name + '-'):
            try: os.unlink(os.path.join(d, f))
            except OSError: pass
    src = os.path.join(d, '%s-%s.%d.cpp' % (name, key, os.getpid()))
    open(src, 'w').write(text)
    t1 = src + '.bc'
    try:
        cmd = [CLANG] + flags(defs) + ['-w', '-O0', '-Xclang', '-disable-O0-optnone', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-emit-llvm', '-c', src, '-o', t1]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode: raise BuildError(p.stderr[:4000])
        p = subprocess.run([OPT, '-passes=' + passes, t1, '-o', t1 + '2'], capture_output=True, text=True)
        if p.returncode: raise BuildError(p.stderr[:4000])
        os.replace(t1 + '2', out)
    finally:
        for f in (src, t1, t1 + '2'):
            if os.path.exists(f): os.unlink(f)
    return out
def native(name, text, opt='-O1', extra=(), defs=(), libs=(), srcs=()):
    """compile a native program against the real sources (whole-library archive
    of the named source files)"""
    key = hashlib.sha256((treehash() + text + opt + ' '.join(extra) + ' '.join(defs) + ' '.join(srcs)).encode()).hexdigest()[:16]
    d = os.path.join(BUILD, 'nat'); os.makedirs(d, exist_ok=True)
    out = os.path.join(d, '%s-%s' % (name, key))
    if os.path.exists(out): return out
    for f in os.listdir(d):
        if f.startswith(name + '-'):
            try: os.unlink(os.path.join(d, f))
            except OSError: pass
    src = os.path.join(d, '%s-%s.%d.cpp' % (name, key, os.getpid()))
    open(src, 'w').write(text)
    try:
        cmd = [CLANG] + flags(defs) + ['-w', opt, *extra, src, '-o', src + '.exe', *libs]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode: raise BuildError(p.stderr[:4000])
        os.replace(src + '.exe', out)
    finally:
        for f in (src, src + '.exe'):
            if os.path.exists(f): os.unlink(f)
    return out
def library(sanitize=False):
    """static archive of all of /repo/src (library part), per-file cache on
    preprocessed-dependency hash = tree hash"""
    tag = 'san' if sanitize else 'plain'
    d = os.path.join(BUILD, 'lib-' + tag + '-' + treehash()); ar = os.path.join(d, 'libomega.a')
    if os.path.exists(ar): return ar
    base = os.path.join(BUILD)
    os.makedirs(base, exist_ok=True)
    import shutil
    for f in os.listdir(base):
        if f.startswith('lib-' + tag + '-') and f != os.path.basename(d): shutil.rmtree(os.path.join(base, f), ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    import re
    cm = open(os.path.join(REPO, 'src', 'CMakeLists.txt')).read()
    srcs = sorted(f for f in os.listdir(os.path.join(REPO, 'src')) if f.endswith('.cpp'))
    m = re.search(r'set\(Omega_h_SOURCES(.*?)\)', cm, re.S)
    want = [s for s in m.group(1).split() if s.endswith('.cpp')]
    want += ['Omega_h_random.cpp', 'Omega_h_coarsen_flip.cpp']
    want = [s for s in dict.fromkeys(want) if s in srcs]
    from concurrent.futures import ThreadPoolExecutor
    odir = os.path.join(BUILD, 'obj-' + tag); os.makedirs(odir, exist_ok=True)
    fl = flags() + ['-w', '-O1', '-fPIC'] + (['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-g1'] if sanitize else [])
    def one(s):
        p = os.path.join(REPO, 'src', s)
        # dependency-aware reuse: hash of preprocessed text
        pp = subprocess.run([CLANG] + fl + ['-E', '-P', p], capture_output=True)
        if pp.returncode: return s, pp.stderr.decode()[:3000]
        k = hashlib.sha256(pp.stdout + ' '.join(fl).encode()).hexdigest()[:20]
        o = os.path.join(odir, s[:-4] + '-' + k + '.o')
        if not os.path.exists(o):
            for f in os.listdir(odir):
                if f.startswith(s[:-4] + '-') and f.endswith('.o'):
                    try: os.unlink(os.path.join(odir, f))
                    except OSError: pass
            q = subprocess.run([CLANG] + fl + ['-c', p, '-o', o + '.%d' % os.getpid()], capture_output=True, text=True)
            if q.returncode: return s, q.stderr[:3000]
            os.replace(o + '.%d' % os.getpid(), o)
        return s, None, o
    objs = []
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(one, want):
            if r[1]: raise BuildError(r[0] + ': ' + r[1])
            objs.append(r[2])
    tmp = ar + '.%d' % os.getpid()
    p = subprocess.run(['ar', 'rcs', tmp] + objs, capture_output=True, text=True)
    if p.returncode: raise BuildError(p.stderr)
    os.replace(tmp, ar)
    return ar
BASEUNITS = ['array', 'int_scan', 'array_ops', 'map', 'functors_'][:4]
def module(units, extra=None, passes='sroa', defs=()):
    """one bitcode file linking the named real translation units (src/Omega_h_<u>.cpp)
    and an optional harness text (instantiations only)"""
    from concurrent.futures import ThreadPoolExecutor
    todo = [(u, '#include "Omega_h_%s.cpp"\n' % u) for u in dict.fromkeys(units)]
    if extra: todo.append(('x' + hashlib.sha256(extra.encode()).hexdigest()[:8], extra))
    key = hashlib.sha256((treehash() + repr(todo) + passes + repr(defs)).encode()).hexdigest()[:16]
    out = os.path.join(BUILD, 'bc', 'link-%s.bc' % key)
    if os.path.exists(out): return out
    with ThreadPoolExecutor(8) as ex:
        bcs = list(ex.map(lambda t: bitcode(t[0], t[1], passes, defs), todo))
    import time
    for f in os.listdir(os.path.join(BUILD, 'bc')):
        p = os.path.join(BUILD, 'bc', f)
        try:
            if f.startswith('link-') and time.time() - os.path.getmtime(p) > 7200: os.unlink(p)
        except OSError: pass
    t = out + '.%d' % os.getpid()
    p = subprocess.run(['/usr/lib/llvm-18/bin/llvm-link'] + bcs + ['-o', t], capture_output=True, text=True)
    if p.returncode: raise BuildError(p.stderr[:3000])
    os.replace(t, out)
    return out
