import re
from prop import *
from native import Native
import z3
from stdc import *
from p02 import C, IV
from p22 import gptr, graph, gout, count_ghost
from p03 import TY
U = ('adj', 'align', 'sort', 'graph', 'map', 'int_scan', 'array_ops', 'array', 'shared_alloc')
N = 2**31 - 2
TASKS = []
def adjptr(e, off=None, edges=None, codes=None):
    cx = e.cx; g = cx.new_obj(e.st, 'adj', 48); c = {}
    for b, a in ((0, off), (16, edges), (32, codes)):
        if a is None: c[b] = (8, NULL, 'p'); c[b + 8] = (8, NULL, 'p'); continue
        h = e.st.objs[a.ptr.obj].cells
        for o in (0, 8): c[b + o] = (8, h[o][1], 'p')
    e.st.objs[g.obj] = RecC(c); return g
def aout(e, r): return gout(e, r) + e.out(r, 1, off=32)
def unmap_adj(e):
    n = e.int('n', 0, N); na = e.int('na', 0, N); kb = e.int('kb', 0, N); b = e.fan('off', n, kb); eb = e.array('edges', kb); cb = e.array('codes', kb, 1)
    G = adjptr(e, b, eb, cb); u = e.array('a2b', na, rng=(0, n)); r = e.sret(48)
    e.call('Omega_h::unmap_adjacency', r, u, G)
    L, off, M, ed, MC, co = aout(e, r); i = e.ivar('i', 0, na); j = e.ivar('j', 0)
    e.prove('number of entities', L == na + 1)
    e.prove('offsets', z3.And(off(IV(0)) == 0, off(i + 1) - off(i) == b(u(i) + 1) - b(u(i)), M == off(na), MC == M))
    e.prove('entries and codes of the mapped entity, in order', z3.Implies(j < b(u(i) + 1) - b(u(i)), z3.And(ed(off(i) + j) == eb(b(u(i)) + j), co(off(i) + j) == cb(b(u(i)) + j))))
TASKS.append(Task('unmap_adjacency', unmap_adj, U, contracts=C('SCAN')))
# ---- canonical orientation
def perm_pos(n, f, r, j):
    p = (j + r) % n
    return (n - p) % n if f else p
def canonical(T, es, n):
    def f(e):
        ne = e.int('ne', 0, (2**31 - 1) // 4); a = e.array('ev2v', ne * n, es); r = e.sret()
        e.call('Omega_h::get_codes_to_canonical<%s>' % T, r, n, a)
        L, rd = e.out(r, 1); x = e.ivar('x', 0, ne); e.inst(x)
        e.prove('size', L == ne)
        v = [a(x * n + j) for j in range(n)]
        first = lambda m: z3.And(*[v[j] > v[m] for j in range(m)], *[v[j] >= v[m] for j in range(m + 1, n)])
        e.prove('the code is a rotation, possibly flipped', z3.Or(*[rd(x) == 2 * q + s for q in range(n) for s in ((0, 1) if n > 2 else (0,))]))
        for s in ((0, 1) if n > 2 else (0,)):
            for q in range(n):
                out = [None] * n
                for j in range(n): out[perm_pos(n, s, q, j)] = v[j]
                c = rd(x) == 2 * q + s
                e.prove('rotation %d flip %d: the smallest vertex comes first' % (q, s), z3.Implies(c, z3.And(*[out[0] <= out[j] for j in range(1, n)])))
                e.prove('rotation %d flip %d: it is the first of equal ones' % (q, s), z3.Implies(c, first((n - q) % n)))
                if n > 2: e.prove('rotation %d flip %d: its smaller neighbour comes second' % (q, s), z3.Implies(c, out[1] <= out[n - 1]))
    return f
for T, es in (('int', 4), ('long', 8)):
    for n in (2, 3, 4): TASKS.append(Task('get_codes_to_canonical<%s>, %d vertices' % (T, n), canonical(T, es, n), U))
def jumps(n):
    def f(e):
        ne = e.int('ne', 0, (2**31 - 1) // 4); nu = e.int('nu', 0, (2**31 - 1) // 4); a = e.array('canon', nu * n); s = e.array('sorted2e', ne, rng=(0, nu)); r = e.sret()
        e.call('Omega_h::find_canonical_jumps', r, n, a, s)
        L, rd = e.out(r, 1); i = e.ivar('i', 0, ne); e.prove('size', L == ne)
        same = z3.And(*[a(s(i) * n + j) == a(s(i + 1) * n + j) for j in range(n)])
        e.prove('a jump is marked exactly where the vertex list changes, and at the end', rd(i) == z3.If(z3.And(i + 1 < ne, same), IV(0), IV(1)))
    return f
for n in (2, 3, 4): TASKS.append(Task('find_canonical_jumps, %d vertices' % n, jumps(n), U))
# ---- uses of low entities
FAM = {'simplex': 0, 'hypercube': 1}
def tab(e, fam, hd, ld, u, v): return e.call('Omega_h::element_down_template', FAM[fam], hd, ld, u, v)
def deg(e, fam, a, b): return e.call('Omega_h::element_degree', FAM[fam], a, b)
def form(fam, hd, ld):
    def f(e):
        nh, nl, nlh = deg(e, fam, hd, 0), deg(e, fam, ld, 0), deg(e, fam, hd, ld)
        n = e.int('n', 0, (2**31 - 1) // max(nh, nl * nlh)); a = e.array('hv2v', n * nh); r = e.sret()
        e.call('Omega_h::form_uses', r, a, FAM[fam], hd, ld)
        L, rd = e.out(r); h = e.ivar('h', 0, n); e.inst(h)
        e.prove('size', L == n * (nlh * nl))
        for u in range(nlh):
            for v in range(nl): e.prove('vertex %d of use %d' % (v, u), rd(h * (nlh * nl) + (u * nl + v)) == a(h * nh + tab(e, fam, hd, ld, u, v)))
    return f
for fam in FAM:
    for hd in (2, 3):
        for ld in range(1, hd): TASKS.append(Task('form_uses %s %d to %d' % (fam, hd, ld), form(fam, hd, ld), U))
# ---- ordering the upward lists

def forall(vs, f, *pats):
    if not all(z3.is_app_of(p, z3.Z3_OP_UNINTERPRETED) for p in pats): return z3.ForAll(vs, f)
    return z3.ForAll(vs, f, patterns=[z3.MultiPattern(*pats) if len(pats) > 1 else pats[0]])
class Outer:
    """outer pass of the selection sort over [b,en): the entries before j are final,
    and the whole list is a rearrangement (ghost: where each entry came from) of the original"""
    def __init__(s, b, en): s.b = b; s.en = en; s.ghosts = {'src': (lambda i: i if z3.is_expr(i) else IV(i), s.step(0)), 'dst': (lambda i: i if z3.is_expr(i) else IV(i), s.step(1))}
    def step(s, inv):
        def f(L, Lb):
            j, m = L.phi[0], s.inner.kmin(); G = L.ghost['src']; H = L.ghost['dst']
            if not inv: return lambda x: z3.If(x == j, G(m), z3.If(x == m, G(j), G(x)))
            return lambda x: z3.If(x == G(m), j, z3.If(x == G(j), m, H(x)))
        return f
    def enter(s, cx, L): s.j = L.phi[0]
    def inv(s, cx, L):
        b, en = s.b, s.en; A, Cd = L.arr('lh2h'), L.arr('codes'); A0, C0 = L.entry.arr('lh2h'), L.entry.arr('codes'); G, H = L.ghost['src'], L.ghost['dst']
        j = cx.zi(L.phi[0]); x, y = z3.Int('x!'), z3.Int('y!')
        fa = forall
        seg = lambda t: z3.And(b <= t, t < en)
        return [('range', z3.And(b <= j, j <= en)),
            ('entries before j are in order and not above the rest', fa([x, y], z3.Implies(z3.And(b <= x, x < y, y < en, x < j), A(x) <= A(y)), A(x), A(y))),
            ('other lists are untouched', fa([x], z3.Implies(z3.Not(seg(x)), z3.And(A(x) == A0(x), Cd(x) == C0(x))), A(x))),
            ('other codes are untouched', fa([x], z3.Implies(z3.Not(seg(x)), Cd(x) == C0(x)), Cd(x))),
            ('rearrangement', fa([x], z3.Implies(seg(x), z3.And(seg(G(x)), H(G(x)) == x, A(x) == A0(G(x)), Cd(x) == C0(G(x)))), A(x))),
            ('inverse rearrangement', fa([x], z3.Implies(seg(x), z3.And(seg(H(x)), G(H(x)) == x)), A0(x)))]
    def variant(s, L): return s.en - L.phi[0]
class Inner:
    """inner pass: k_min holds the first smallest entry of [j,k)"""
    def __init__(s, out): s.out = out; out.inner = s
    def enter(s, cx, L):
        j = s.out.j
        if L is L.entry:
            d = [cx.const_diff(v, j) if z3.is_int(cx.zi(v)) else None for v in L.phi]
            s.k = d.index(1); s.m = d.index(0); s.v = 3 - s.k - s.m
        s.L = L
    def kmin(s): return s.L.phi[s.m]
    def inv(s, cx, L):
        j = cx.zi(s.out.j); k, m, v = [cx.zi(L.phi[i]) for i in (s.k, s.m, s.v)]; A = L.arr('lh2h'); y = z3.Int('y!')
        return [('range', z3.And(j < k, k <= s.out.en, j <= m, m < k)), ('value', v == A(m)), ('smallest so far', z3.ForAll([y], z3.Implies(z3.And(j <= y, y < k), A(m) <= A(y)), patterns=[A(y)]) if z3.is_app_of(A(y), z3.Z3_OP_UNINTERPRETED) else z3.ForAll([y], z3.Implies(z3.And(j <= y, y < k), A(m) <= A(y))))]
    def variant(s, L): return s.out.en - L.phi[s.k]
def sorted_seg(e):
    """one iteration of the kernel of sort_by_high_index"""
    nl = e.int('nl', 0, N); nlh = e.int('nlh', 0, N); off = e.fan('l2lh', nl, nlh); a = e.array('lh2h', nlh, rng=(0, N)); c = e.array('codes', nlh, 1); l = e.ivar('l', 0, nl)
    cx = e.cx; o = Outer(off(l), off(l + 1)); cx.invariants = [('sort_by_high_index', 0, o), ('sort_by_high_index', 1, Inner(o))]
    fns = [x for x in cx.mod.defs if 'Omega_h::sort_by_high_index(' in dem(x) and 'operator()(int)' in dem(x)]
    if len(fns) != 1: raise Unsupported('kernel of sort_by_high_index')
    clo = closure(e, cx.mod.function(fns[0]), 'Omega_h::sort_by_high_index', [off.ptr, a.ptr, c.ptr])
    r = cx.run_body(cx.mod.function(fns[0]), [clo, l], e.st); e.st = r[0]; cx.cur_pc = e.st.pc
    H = [L for L in cx.inv_heads if L.phi[0] is not None and 'src' in (L.ghost or {})][-1]
    G, D = H.ghost['src'], H.ghost['dst']; A, Cd = e.out(a)[1], e.out(c, 1)[1]; x = e.ivar('x'); y = e.ivar('y'); seg = lambda t: z3.And(off(l) <= t, t < off(l + 1))
    e.prove('the list is in increasing order', z3.Implies(z3.And(seg(x), seg(y), x < y), A(x) <= A(y)))
    e.prove('entries move with their codes, none is lost or duplicated', z3.Implies(seg(x), z3.And(seg(G(x)), A(x) == a(G(x)), Cd(x) == c(G(x)), D(G(x)) == x, seg(D(x)), G(D(x)) == x)))
    e.prove('other lists are untouched', z3.Implies(z3.Not(seg(x)), z3.And(A(x) == a(x), Cd(x) == c(x))))
def closure(e, fn, q, handles):
    """the closure object of a kernel: captured when its own function reaches the parallel loop"""
    box = []
    cx = e.cx; old = cx.contracts
    def grab(cx_, nm, a, st, I): box.append((a, st)); raise Grab()
    cx.contracts = [(R(r'Omega_h::parallel_for<.*' + re.escape(dem(fn.name).split('::operator()')[0])), grab)] + list(old); cx.ccache.clear()
    try: e.call(q, *handles)
    except Grab: pass
    finally: cx.contracts = old; cx.ccache.clear()
    a, st = box[0]; e.st = st; cx.cur_pc = st.pc; cx.depth = 0
    return next(x for x in a if isinstance(x, Ptr))
class Grab(Exception): pass
TASKS.append(Task('sort_by_high_index: one list', sorted_seg, U))

# ---- upward adjacency
def invadj(nlph, with_codes, hd=3, ld=1):
    def f(e):
        nh = e.int('nh', 0, (2**31 - 1) // 12); nl = e.int('nl', 0, N); a = e.array('hl2l', nh * nlph, rng=(0, nl)); c = e.array('hlcodes', nh * nlph, 1, rng=(0, 8)) if with_codes else None
        G = adjptr(e, None, a, c); r = e.sret(48)
        e.call('Omega_h::invert_adj', r, G, nlph, nl, hd, ld)
        L, off, M, up, MC, co = aout(e, r); h = e.ivar('h', 0, nh); w = e.ivar('w', 0, nlph); l = e.ivar('l', 0, nl); x = e.ivar('x'); y = e.ivar('y'); e.inst(x)
        OFF, own, IT, POS, _, _, _ = e.cx.inverted[-1]; F, T = e.cx.sorted_lists[-1]
        hl = h * nlph + w; p = e.int('p'); e.assume(p == T(POS(hl))); low = lambda q: (c(q) if with_codes else IV(0))
        e.prove('size', z3.And(L == nl + 1, off(IV(0)) == 0, M == off(nl), MC == M))
        code = lambda hl_, w_: 8 * w_ + low(hl_)
        e.prove('each use appears in the list of its low entity', z3.And(off(a(hl)) <= p, p < off(a(hl) + 1), up(p) == h))
        e.prove('with its position and orientation', co(p) == code(hl, w))
        seg = z3.And(off(l) <= x, x < off(l + 1)); s = e.int('s'); e.assume(s == IT(F(x))); q = s / nlph
        e.prove('each entry of a list is a use of that entity, none is listed twice', z3.Implies(seg, z3.And(0 <= s, s < nh * nlph, a(s) == l, up(x) == q, co(x) == code(s, s % nlph), T(POS(s)) == x)))
        e.prove('lists are ordered by entity', z3.Implies(z3.And(seg, x < y, y < off(l + 1)), up(x) <= up(y)))
    return f
for n in (2, 3, 4, 6, 8, 12):
    for wc in (True, False): TASKS.append(Task('invert_adj, %d per high entity, %s codes' % (n, 'with' if wc else 'without'), invadj(n, wc), U, contracts=C('SCAN', 'IMA', 'SBHI')))

# ---- matching entities to their stored copies
def nullh(e): return e.null_array()
def aligned(n, f, q, u, v):
    """v placed by (rotation q, flip f) is u"""
    return z3.And(*[u(perm_pos(n, f, q, j)) == v(j) for j in range(n)])
def codes_of(n): return [(f, q) for q in range(n) for f in ((0, 1) if n > 2 else (0,))]
class Search:
    """walk over the list of the first vertex; m: the place of the match in it"""
    def __init__(s, lo, hi, m, good, dup): s.lo = lo; s.hi = hi; s.m = m; s.good = good; s.dup = dup
    def enter(s, cx, L):
        if L is L.entry: s.v = next(i for i, x in enumerate(L.phi) if z3.is_expr(x) and z3.is_int(x)); s.f = 1 - s.v
    def inv(s, cx, L):
        y = z3.Int('y!'); v = cx.zi(L.phi[s.v]); fd = cx.zi(L.phi[s.f]) != 0 if len(L.phi) > 1 else z3.BoolVal(False)
        return [('range', z3.And(s.lo <= v, v <= s.hi)), ('found when passed', z3.And(z3.Not(fd), v <= s.m) if s.dup else fd == (s.m < v)), ('what is stored is the match', z3.Implies(fd, s.good(L.arr(s.oids[0]), L.arr(s.oids[1]))))] + [('found is a truth value', z3.Or(L.phi[s.f] == 0, L.phi[s.f] == 1))] * (len(L.phi) > 1) + [('results of other entities are untouched', forall([y], z3.Implies(y != s.s, L.arr(o)(y) == L.entry.arr(o)(y)), L.arr(o)(y))) for o in s.oids]
    def variant(s, L): return s.hi - L.phi[s.v]
def find_match(T, es, n, dup):
    def f(e):
        na = e.int('na', 0, (2**31 - 1) // 4); nb = e.int('nb', 0, (2**31 - 1) // 4); nv = e.int('nv', 0, N); k = e.int('k', 0, N)
        fv = e.array('a2fv', na, rng=(0, nv)); a = e.array('av2v', na * n, es); b = e.array('bv2v', nb * n, es)
        off = e.fan('v2vb', nv, k); up = e.array('vb2b', k, rng=(0, nb)); cd = e.array('vb_codes', k, 1); s = e.ivar('s', 0, na)
        w = e.decl('wd', k, 1, rng=(0, n)); lo = e.decl('lowbits', k, 1, rng=(0, 8)); y = z3.Int('y!'); lb, le = off(fv(s)), off(fv(s) + 1)
        inl = lambda t: z3.And(lb <= t, t < le)
        e.assume(z3.ForAll([y], z3.Implies(inl(y), z3.And(cd(y) == 8 * w(y) + lo(y), 0 <= w(y), w(y) < n, 0 <= lo(y), lo(y) < 8)), patterns=[cd(y)]))
        # an entry of a vertex's list names an entity with that vertex at the stated position
        for p in range(n): e.assume(z3.ForAll([y], z3.Implies(z3.And(inl(y), w(y) == p), b(up(y) * n + p) == a(s * n)), patterns=[up(y)]))
        # the vertices of an entity differ
        if n == 4: e.assume(z3.ForAll([y], z3.Implies(inl(y), z3.And(*[b(up(y) * n + p) != b(up(y) * n + q) for p in range(n) for q in range(p)])), patterns=[up(y)]))
        M = lambda t: z3.Or(*[aligned(n, g, q, lambda j: a(s * n + j), lambda j: b(up(t) * n + j)) for g, q in codes_of(n)])
        m = e.int('m'); e.assume(z3.And(inl(m), M(m)))
        if not dup: e.assume(z3.ForAll([y], z3.Implies(z3.And(inl(y), M(y)), y == m), patterns=[up(y)]))
        def good(r1, r2):
            c = lambda g, q: z3.Implies(r2(s) == 2 * q + g, aligned(n, g, q, lambda j: a(s * n + j), lambda j: b(r1(s) * n + j)))
            return z3.And(0 <= r1(s), r1(s) < nb, z3.Or(*[r2(s) == 2 * q + g for g, q in codes_of(n)]), *[c(g, q) for g, q in codes_of(n)])
        G = adjptr(e, off, up, cd); o1, o2 = e.sret(), e.sret(); cx = e.cx
        S = Search(lb, le, m, good, dup); S.s = s; cx.invariants = [('find_matches_deg', 0, S)]; had = set(e.st.objs)
        fns = [x for x in cx.mod.defs if 'Omega_h::find_matches_deg<%d, %s>(' % (n, T) in dem(x) and 'operator()(int)' in dem(x)]
        if len(fns) != 1: raise Unsupported('kernel of find_matches_deg')
        clo, st = closure(e, cx.mod.function(fns[0]), 'Omega_h::find_matches_deg<%d, %s>' % (n, T), [fv, a, b, G, o1, o2, dup]), None
        S.oids = [next(o for o in e.st.objs if o not in had and cx.meta[o].nbytes is not None and cx.veq(cx.meta[o].nbytes, z)) for z in (cx.muli(4, na), na)]
        st0 = e.st; r = cx.run_body(cx.mod.function(fns[0]), [clo, s], e.st); e.st = r[0]; cx.cur_pc = e.st.pc
        rd = lambda st, o: (lambda i: cx.zi(st.objs[o].c.read(cx.norm(i), cx)))
        arrs = [rd(e.st, o) for o in S.oids]; keep = lambda z: [rd(st0, o)(z) for o in S.oids]
        e.prove('the match is a stored entity and the code maps its vertex list onto the use', good(*arrs))
        z = e.ivar('z', 0, na); e.prove('results of other entities are untouched', z3.Implies(z != s, z3.And(*[x(z) == y for x, y in zip(arrs, keep(z))])))
    return f
for T, es in (('int', 4), ('long', 8)):
    for n in (2, 3, 4):
        for dup in (False, True): TASKS.append(Task('find_matches_ex<%s>, %d vertices%s' % (T, n, ', duplicates allowed' if dup else ''), find_match(T, es, n, dup), U))

# ---- one iteration of a kernel
def kernel(e, func, handles, idx, sub='operator()(int)', pick=None, uniq=True):
    """runs one iteration of the kernel of `func` in the state the function hands to the
    parallel loop; returns the states before and after and the arrays `func` allocated"""
    cx = e.cx; had = set(e.st.objs)
    key = func if 'Omega_h::' in func else 'Omega_h::' + func
    fns = [x for x in cx.mod.defs if dem(x).startswith((key + '(', key + '<')) and sub in dem(x)]
    if pick: fns = [x for x in fns if pick in dem(x)]
    if len(fns) != 1: raise Unsupported('kernel of %s: %d candidates' % (func, len(fns)))
    fn = cx.mod.function(fns[0])
    clo = closure(e, fn, key, handles)
    new = [o for o in e.st.objs if o not in had and cx.meta[o].nbytes is not None and not isinstance(e.st.objs[o], RecC)]
    return fn, clo, new
def fire(e, fn, clo, idx):
    cx = e.cx; st0 = e.st; r = cx.run_body(fn, [clo, idx], e.st); e.st = r[0]; cx.cur_pc = e.st.pc
    return st0
def sized(e, new, nb):
    """the array of that many bytes among those the function allocated"""
    o = [x for x in new if e.cx.veq(e.cx.meta[x].nbytes, nb)]
    if len(o) != 1: raise Unsupported('array of the given size: %d of %s' % (len(o), [str(e.cx.meta[o_].nbytes) for o_ in new]))
    return o[0]
def rdo(e, st, o, es=4):
    c = e.cx.typed(o, st.objs[o], int_t(8 * es), st)
    return lambda i: e.cx.zi(c.c.read(e.cx.norm(i) if not isinstance(i, int) else i, e.cx))
def cases(code, n): return z3.Or(*[code == 2 * q + f for f, q in codes_of(n)])
def transit(fam, hd, ld):
    def f(e):
        md = ld + 1; nh, nm, nl = deg(e, fam, hd, 0), deg(e, fam, hd, md), deg(e, fam, hd, ld); nmv, nml, nlv = deg(e, fam, md, 0), deg(e, fam, md, ld), deg(e, fam, ld, 0) if ld else 1
        H = e.int('nhighs', 0, (2**31 - 1) // 24); Mn = e.int('nmids', 0, (2**31 - 1) // 24); L = e.int('nlows', 0, N)
        hm = e.array('hm2m', H * nm, rng=(0, Mn)); hc = e.array('m2hm_codes', H * nm, 1, rng=(0, 8)); ml = e.array('ml2l', Mn * nml, rng=(0, L)); mc = e.array('l2ml_codes', Mn * nml, 1, rng=(0, 4)) if ld else None
        h = e.ivar('h', 0, H); hv = [z3.Int('vert%d' % i) for i in range(nh)]; e.assume(z3.Distinct(*hv)); mv = e.decl('midverts', N); lv = e.decl('lowverts', N)
        V = (lambda m, j: ml(m * nml + j)) if ld == 0 else (lambda m, j: mv(m * nmv + j))
        for s in range(nm): e.assume(cases(hc(h * nm + s), nmv))
        if ld:
            for s in range(nm):
                for t in range(nml): e.assume(cases(mc(hm(h * nm + s) * nml + t), 2))
        G1 = adjptr(e, None, hm, hc); G2 = adjptr(e, None, ml, mc); r = e.sret(48)
        e.cx.fail_obl = False; e.cx.forget_checks = True
        fn, clo, new = kernel(e, 'transit', [r, G1, G2, FAM[fam], hd, ld], h)
        a = sized(e, new, e.cx.muli(4 * nl, H)); b = sized(e, new, e.cx.muli(nl, H)) if ld else None
        A0 = rdo(e, e.st, a); fire(e, fn, clo, h); A, B = rdo(e, e.st, a), rdo(e, e.st, b, 1) if ld else None
        e.cx.fail_obl = True; e.cx.forget_checks = False
        # every side of h: its stored vertex list, placed by the code, is the list the element defines
        for s in range(nm):
            c = hc(h * nm + s); m = hm(h * nm + s)
            for g, q in codes_of(nmv): e.assume(z3.Implies(c == 2 * q + g, aligned(nmv, g, q, lambda j: hv[tab(e, fam, hd, md, s, j)], lambda j: V(m, j))))
            if ld:
                for t in range(nml):
                    c2 = mc(m * nml + t); l = ml(m * nml + t)
                    for q in (0, 1): e.assume(z3.Implies(c2 == 2 * q, z3.And(*[lv(l * 2 + j) == V(m, tab(e, fam, md, 1, t, (j + q) % 2)) for j in (0, 1)])))
        for t in range(nl):
            l = A(h * nl + t); c = B(h * nl + t) if ld else None
            txt = str(l) + str(c)      # the side the entity was taken from (only splits the proof into cases)
            for s in [s for s in range(nm) if str(hc(h * nm + s)) in txt][:1] or [0]:
                cs = hc(h * nm + s)
                for g, q in codes_of(nmv):
                    sub = lambda x: z3.simplify(z3.substitute(x, (cs, IV(2 * q + g)))); here = cs == 2 * q + g; w = ' (side turned by %d, %s)' % (q, 'flipped' if g else 'not flipped')
                    l2 = sub(l)
                    if ld == 0: e.prove('vertex %d' % t + w, z3.Implies(here, l2 == hv[t])); continue
                    c2 = sub(c); e.prove('edge %d: the code is a direction' % t + w, z3.Implies(here, z3.Or(c2 == 0, c2 == 2)))
                    for d in (0, 1): e.prove('edge %d, direction %d: the edge joins the vertices the element defines' % (t, d) + w, z3.Implies(z3.And(here, c2 == 2 * d), z3.And(*[lv(l2 * 2 + j) == hv[tab(e, fam, hd, 1, t, (j + d) % 2)] for j in (0, 1)])))
        x = e.ivar('x', 0, H * nl); e.prove('entries of other entities are untouched', z3.Implies(z3.Or(x < h * nl, x >= (h + 1) * nl), A(x) == A0(x)))
    return f
for fam in FAM:
    for hd, ld in ((2, 0), (3, 0), (3, 1)): TASKS.append(Task('transit %s %d to %d' % (fam, hd, ld), transit(fam, hd, ld), U))
def vae(e):
    ne = e.int('ne', 0, (2**31 - 1) // 2); nv = e.int('nv', 0, N); k = e.int('k', 0, N); ev = e.array('ev2v', ne * 2, rng=(0, nv)); off = e.fan('v2ve', nv, k); up = e.array('ve2e', k, rng=(0, ne)); cd = e.array('codes', k, 1); j = e.ivar('j', 0, k); w = e.int('w', 0, 1); lo = e.int('lo', 0, 7)
    y = z3.Int('y!'); e.assume(z3.ForAll([y], z3.Implies(z3.And(0 <= y, y < k), z3.And(cd(y) >= 0, cd(y) < 16)), patterns=[cd(y)])); e.inst(j)
    e.assume(cd(j) == 8 * w + lo); e.assume(ev(up(j) * 2 + w) == off.own(j))
    r = e.sret(48); e.call('Omega_h::verts_across_edges', r, adjptr(e, None, ev), adjptr(e, off, up, cd))
    L, o, M, rd = gout(e, r); i = e.ivar('i', 0, nv + 1); e.prove('offsets', z3.And(L == nv + 1, M == k, o(i) == off(i)))
    e.prove('the neighbour is the other end of the edge', z3.And(rd(j) == ev(up(j) * 2 + 1 - w), z3.Implies(ev(up(j) * 2) != ev(up(j) * 2 + 1), rd(j) != off.own(j))))
TASKS.append(Task('verts_across_edges', vae, U))

def lemma(e, name, g):
    e.prove(name, g, "lemma"); e.assume(g)
def across(what):
    """edges_across_tris / edges_across_tets"""
    n, m, per = (3, 3, 2) if what == 'tris' else (6, 4, 1)
    def f(e):
        nt = e.int('nt', 0, (2**31 - 1) // 6); ne = e.int('ne', 0, N); k = e.int('k', 0, (2**31 - 2) // 2); te = e.array('te2e', nt * n, rng=(0, ne)); off = e.fan('e2et', ne, k); up = e.array('et2t', k, rng=(0, nt)); cd = e.array('codes', k, 1); j = e.ivar('j', 0, k); w = e.int('w', 0, n - 1); lo = e.int('lo', 0, 7)
        y = z3.Int('y!'); e.assume(z3.ForAll([y], z3.Implies(z3.And(0 <= y, y < k), z3.And(cd(y) >= 0, cd(y) < 8 * n)), patterns=[cd(y)])); e.inst(j)
        e.assume(cd(j) == 8 * w + lo); e.assume(te(up(j) * n + w) == off.own(j))
        r = e.sret(48); e.call('Omega_h::edges_across_' + what, r, adjptr(e, None, te), adjptr(e, off, up, cd))
        L, o, M, rd = gout(e, r); i = e.ivar('i', 0, ne + 1)
        if per == 2:
            OFF, own = e.cx.scans[-1][:2]; e.induct('offsets are doubled', ne, lambda q: OFF(q) == 2 * off(q), pats=lambda q: [OFF(q)])
            for q in (0, 1): lemma(e, 'neighbour %d belongs to the edge' % q, own(2 * j + q) == off.own(j))
        e.prove('offsets: size', L == ne + 1); e.prove('offsets: total', M == per * k); e.prove('offsets', o(i) == per * off(i))
        vs = lambda x: {tab(e, 'simplex', 2 if per == 2 else 3, 1, x, v) for v in (0, 1)}
        for x in range(n):
            if per == 2:
                # the other two edges of the triangle, in the order they follow this one
                e.prove('edge %d of the triangle: the next two edges' % x, z3.Implies(w == x, z3.And(rd(2 * j) == te(up(j) * 3 + (x + 1) % 3), rd(2 * j + 1) == te(up(j) * 3 + (x + 2) % 3))))
            else:
                opp = [q for q in range(6) if not vs(q) & vs(x)]
                e.prove('edge %d of the tetrahedron: the edge that shares no vertex with it' % x, z3.Implies(w == x, rd(j) == te(up(j) * 6 + opp[0])))
    return f
for w in ('tris', 'tets'): TASKS.append(Task('edges_across_' + w, across(w), U, contracts=C('SCAN')))
def eas(dim):
    def f(e):
        ns = dim + 1; n = e.int('n', 0, (2**31 - 1) // 4); nsd = e.int('nsides', 0, (2**31 - 1) // 2); k = e.int('k', 0, N)
        es = e.array('es2s', n * ns, rng=(0, nsd)); off = e.fan('s2se', nsd, k); se = e.array('se2e', k, rng=(0, n)); ex = e.array('exposed', nsd, 1, rng=(0, 2)); y = z3.Int('y!')
        # a side that is not exposed has two elements
        e.assume(z3.ForAll([y], z3.Implies(z3.And(0 <= y, y < nsd, ex(y) == 0), off(y + 1) == off(y) + 2), patterns=[ex(y)]))
        r = e.sret(32); e.call('Omega_h::elements_across_sides', r, dim, adjptr(e, None, es), adjptr(e, off, se), ex)
        L, o, M, rd = gout(e, r); i = e.ivar('i', 0, n); e.inst(i); sd = [es(i * ns + t) for t in range(ns)]
        for x in sd: e.assume(z3.Implies(ex(x) == 0, z3.Or(se(off(x)) == i, se(off(x) + 1) == i)))
        cnt = [z3.Sum([IV(0)] + [z3.If(ex(sd[u]) == 0, IV(1), IV(0)) for u in range(t)]) for t in range(ns + 1)]
        e.prove('offsets', z3.And(L == n + 1, o(IV(0)) == 0, M == o(n)))
        lemma(e, 'list length', o(i + 1) == o(i) + cnt[ns])
        for t in range(ns): lemma(e, 'place of side %d' % t, z3.Implies(ex(sd[t]) == 0, e.cx.scans[-1][1](o(i) + cnt[t]) == i))
        for t in range(ns):
            a, b = se(off(sd[t])), se(off(sd[t]) + 1)
            e.prove('side %d that is not exposed: the other element of the side' % t, z3.Implies(ex(sd[t]) == 0, rd(o(i) + cnt[t]) == z3.If(a == i, b, a)))
    return f
for d in (1, 2, 3): TASKS.append(Task('elements_across_sides, dimension %d' % d, eas(d), U, contracts=C('SCAN')))

# ---- one copy of every low entity
def canon_h(cx, nm, a, st, Ins):
    """tasks 'get_codes_to_canonical' (P04)"""
    top(cx, nm); es = es_of(dem(nm)); n, rd = rdh(cx, st, a[2], es); deg_ = a[1]; ne = cx.divexact(n, deg_)
    if ne is None: raise Unsupported('get_codes_to_canonical size')
    Cc = fnew(cx, 'tocanon', I, I); cx.decl_rng[Cc.name()] = (0, 7); x = z3.Int('x!'); zn = cx.zi(ne)
    cx.fact(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < zn), z3.Or(*[Cc(x) == 2 * q + f for f, q in codes_of(deg_)])), patterns=[Cc(x)]), guard=False)
    mkarr(cx, st, a[0], 'tocanon', ne, 1, 'i', Cc); return st, None
def align_h(cx, nm, a, st, Ins):
    """tasks 'align_ev2v' (P05)"""
    top(cx, nm); es = es_of(dem(nm)); n, rd = rdh(cx, st, a[2], es); m, c = rdh(cx, st, a[3], 1); deg_ = a[1]
    cx.oblige('align_ev2v: one code per entity', cx.zi(n) == cx.zi(m) * deg_, 'pre', st.pc)
    R_ = fnew(cx, 'aligned', I, I); lo_rng(cx, R_); x = z3.Int('x!'); zm = cx.zi(m)
    k = cx.fresh('k', I); cx.oblige('align_ev2v: codes', z3.Implies(z3.And(0 <= k, k < zm), cases(c(k), deg_)), 'pre', st.pc)
    cx.canon = (R_, c)
    mkarr(cx, st, a[0], 'aligned', n, es, 'i', R_); return st, None
CANON = [(R(r'^Omega_h::Read<signed char> Omega_h::get_codes_to_canonical<(int|long)>\('), canon_h), (R(r'^Omega_h::Read<(int|long)> Omega_h::align_ev2v<(int|long)>\('), align_h)]
def find_unique(n):
    def f(e):
        nu = e.int('nu', 0, (2**31 - 1) // 4); a = e.array('uv2v', nu * n); r = e.sret(); cx = e.cx
        e.call('Omega_h::find_unique_deg', r, n, a)
        Rw, rd = e.out(r); K, _ = cx.canon; PI, INV, ns = cx.perms[-1]; Cm, P, L, _, mk = cx.collected[-1]
        key = lambda x: [K(x * n + j) for j in range(n)]
        eq = lambda x, y: z3.And(*[p == q for p, q in zip(key(x), key(y))])
        e.prove('size', Rw == L * n)
        i = e.ivar('i', 0, L); e2u = lambda t: PI(Cm(t))
        for j in range(n): e.prove('every entity is one of the uses, vertex %d' % j, z3.And(0 <= e2u(i), e2u(i) < nu, rd(i * n + j) == a(e2u(i) * n + j)))
        # a jump is exactly a change of the canonical list, or the end
        x, y = z3.Int('x!'), z3.Int('y!')
        k = e.ivar('k', 0, nu); lemma(e, 'jumps', mk(k) == z3.If(z3.And(k + 1 < nu, eq(PI(k), PI(k + 1))), IV(0), IV(1)))
        e.assume(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < nu), mk(x) == z3.If(z3.And(x + 1 < nu, eq(PI(x), PI(x + 1))), IV(0), IV(1))), patterns=[P(x)]))
        # two entities never have the same canonical list
        i2 = e.ivar('i2', 0, L)
        lemma(e, 'different entities lie apart', z3.Implies(i < i2, z3.And(Cm(i) < Cm(i2), Cm(i) + 1 <= Cm(i2), mk(Cm(i)) == 1, z3.Not(eq(PI(Cm(i)), PI(Cm(i) + 1))))))
        e.prove('no entity is listed twice', z3.Implies(i < i2, z3.Not(eq(e2u(i), e2u(i2)))))
        # every use has its entity: the first jump at or after its place
        u = e.ivar('u', 0, nu); s = e.int('s'); e.assume(s == INV(u)); lemma(e, 'place of the use', z3.And(0 <= s, s < nu, PI(s) == u))
        t = e.int('t'); en = e.int('en'); e.assume(en == P(s)); e.assume(t == Cm(en))
        e.induct('marks before grow', nu, lambda q: P(s) <= P(q), pats=lambda q: [P(q)], lo=s)
        lemma(e, 'the last place is a jump', z3.And(mk(nu - 1) == 1, P(nu) == P(nu - 1) + 1))
        lemma(e, 'there is a jump after the use', z3.And(0 <= en, en < L))
        lemma(e, 'where the jump is', z3.And(0 <= t, t < nu, P(t) == en, mk(t) == 1))
        e.induct('marks before grow from the jump', nu, lambda q: P(t + 1) <= P(q), pats=lambda q: [P(q)], lo=t + 1)
        lemma(e, 'the jump is not before the use', s <= t)
        e.induct('same canonical list up to the jump', t, lambda q: eq(PI(s), PI(q)), pats=lambda q: [PI(q)], lo=s)
        e.prove('every use has an entity with the same canonical vertex list', z3.And(0 <= en, en < L, eq(u, e2u(en))))
    return f
for n in (2, 3, 4): TASKS.append(Task('find_unique_deg, %d vertices' % n, find_unique(n), U, contracts=lambda: CANON + SBK + CM))

def same(n):
    """the codes to the canonical lists decide whether two lists name the same entity"""
    def f(e):
        u = [z3.Int('u%d' % j) for j in range(n)]; v = [z3.Int('v%d' % j) for j in range(n)]
        def canon(l, nm):
            o = [z3.Int('%s%d' % (nm, j)) for j in range(n)]; c = z3.Int('code_' + nm); e.assume(cases(c, n))
            for f, q in codes_of(n): e.assume(z3.Implies(c == 2 * q + f, z3.And(*[o[perm_pos(n, f, q, j)] == l[j] for j in range(n)])))
            e.assume(z3.And(*[o[0] <= o[j] for j in range(1, n)])); e.assume(o[1] <= o[n - 1]); return o   # tasks 'get_codes_to_canonical'
        a, b = canon(u, 'cu'), canon(v, 'cv'); e.assume(z3.Distinct(*u)); e.assume(z3.Distinct(*v))
        al = z3.Or(*[aligned(n, f, q, lambda j: u[j], lambda j: v[j]) for f, q in codes_of(n)])
        e.prove('equal canonical lists: one list is the other, turned or flipped, and conversely', al == z3.And(*[x == y for x, y in zip(a, b)]))
    return f
for n in (2, 3, 4): TASKS.append(Task('lemma: canonical lists decide sameness, %d vertices' % n, same(n), U))
def inverse_facts(cx, st, down, nlph, nlows, r):
    """a fresh upward adjacency with the contract of invert_adj (tasks 'invert_adj')"""
    n, rd = rdh(cx, st, cx.padd(down, 16)); nl = cx.zi(nlows); zn = cx.zi(n); k = cx.fresh('k', I)
    cx.oblige('invert_adj: low entities are in range', z3.Implies(z3.And(0 <= k, k < zn), z3.And(rd(k) >= 0, rd(k) < nl)), 'pre', st.pc)
    OFF, UP, CD, AT = [fnew(cx, x, I, I) for x in ('up_off', 'up', 'up_code', 'up_at')]; lo_rng(cx, OFF); lo_rng(cx, UP); cx.decl_rng[CD.name()] = (-128, 127)
    own = fan_facts(cx, OFF, nl); M = OFF(nl); x = z3.Int('x!'); cx.fact(OFF(0) == 0, guard=False); W = fnew(cx, 'up_which', I, I)
    cx.fact(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < M), z3.And(0 <= UP(x), UP(x) * nlph < zn, 0 <= W(x), W(x) < nlph, rd(UP(x) * nlph + W(x)) == own(x), CD(x) == 8 * W(x), AT(UP(x) * nlph + W(x)) == x)), patterns=[UP(x)]), guard=False)
    cx.fact(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < M), z3.And(0 <= W(x), W(x) < nlph, CD(x) == 8 * W(x))), patterns=[CD(x)]), guard=False)
    mkarr(cx, st, r, 'up_off', cx.addi(nlows, 1), 4, 'i', OFF); mkarr(cx, st, cx.padd(r, 16), 'up', M, 4, 'i', UP); mkarr(cx, st, cx.padd(r, 32), 'up_code', M, 1, 'i', CD)
    cx.up = (OFF, UP, CD, AT, W, own)
def invert_adj_h(cx, nm, a, st, Ins):
    top(cx, nm)
    if not isinstance(a[2], int): raise Unsupported('invert_adj degree')
    inverse_facts(cx, st, a[1], a[2], a[3], a[0]); return st, None
INVADJ = [(R(r'^Omega_h::invert_adj\('), invert_adj_h)]
def match_h(cx, nm, a, st, Ins):
    """tasks 'find_matches_ex' (P04).  That every use has exactly one stored copy is the
    assumption the caller's contract makes"""
    top(cx, nm); n = a[0]; na, fv = rdh(cx, st, a[1]); la, A = rdh(cx, st, a[2]); lb, B = rdh(cx, st, a[3]); nv, off = rdh(cx, st, a[4]); ne, up = rdh(cx, st, cx.padd(a[4], 16)); nc, cd = rdh(cx, st, cx.padd(a[4], 32), 1)
    k, j = cx.fresh('k', I), cx.fresh('j', I); na = cx.zi(na); x = z3.Int('x!')
    O = lambda t, f: cx.oblige('find_matches_ex: ' + t, f, 'pre', st.pc)
    O('sizes', z3.And(cx.zi(la) == na * n, cx.zi(nc) == cx.zi(ne)))
    O('the first vertex of each use', z3.Implies(z3.And(0 <= k, k < na), fv(k) == A(k * n)))
    lst = z3.And(0 <= k, k + 1 < cx.zi(nv), off(k) <= j, j < off(k + 1))
    if cx.last_up: O('an entry of a vertex names an entity with that vertex at the stated place', z3.Implies(lst, z3.And(cd(j) / 8 >= 0, cd(j) / 8 < n, *[z3.Implies(cd(j) / 8 == p, B(up(j) * n + p) == k) for p in range(n)])))
    r1, r2 = fnew(cx, 'match', I, I), fnew(cx, 'matchcode', I, I); lo_rng(cx, r1); cx.decl_rng[r2.name()] = (0, 7); nb = cx.divexact(lb, n)
    cx.fact(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < na), z3.And(0 <= r1(x), r1(x) < cx.zi(nb), z3.Or(*[r2(x) == 2 * q + g for g, q in codes_of(n)]))), patterns=[r1(x)]), guard=False)
    cx.fact(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < na), z3.And(*[z3.Implies(r2(x) == 2 * q + g, aligned(n, g, q, lambda t: A(x * n + t), lambda t: B(r1(x) * n + t))) for g, q in codes_of(n)])), patterns=[r1(x)]), guard=False)
    mkarr(cx, st, a[5], 'match', na, 4, 'i', r1); mkarr(cx, st, a[6], 'matchcode', na, 1, 'i', r2)
    return st, None
FME = [(R(r'^(void )?Omega_h::find_matches_ex<(int|long)>\('), match_h)]
def reflect(fam, hd, ld, own_inverse):
    def f(e):
        e.cx.last_up = own_inverse
        nh, nl, nlh = deg(e, fam, hd, 0), deg(e, fam, ld, 0), deg(e, fam, hd, ld); H = e.int('H', 0, (2**31 - 1) // 48); Ln = e.int('L', 0, (2**31 - 1) // 4); nv = e.int('nv', 0, N)
        hv = e.array('hv2v', H * nh, rng=(0, nv)); lv = e.array('lv2v', Ln * nl, rng=(0, nv)); r = e.sret(48)
        if own_inverse: e.call('Omega_h::reflect_down', r, hv, lv, FAM[fam], nv, hd, ld, params='int, int, int')
        else:
            k = e.int('k', 0, N); off = e.fan('v2vl', nv, k); up = e.array('vl2l', k, rng=(0, Ln)); cd = e.array('vlcodes', k, 1)
            e.call('Omega_h::reflect_down', r, hv, lv, adjptr(e, off, up, cd), FAM[fam], hd, ld, params='Omega_h::Adj')
        L, rd = e.out(r, off=16); L2, co = e.out(r, 1, off=32); h = e.ivar('h', 0, H); e.inst(h)
        e.prove('size', z3.And(L == H * nlh, L2 == H * nlh))
        for u in range(nlh):
            x = h * nlh + u; e.prove('side %d is a stored entity' % u, z3.And(0 <= rd(x), rd(x) < Ln, z3.Or(*[co(x) == 2 * q + g for g, q in codes_of(nl)])))
            e.prove('side %d: its vertex list, placed by the code, is the list the element defines' % u, z3.And(*[z3.Implies(co(x) == 2 * q + g, aligned(nl, g, q, lambda j: hv(h * nh + tab(e, fam, hd, ld, u, j)), lambda j: lv(rd(x) * nl + j))) for g, q in codes_of(nl)]))
    return f
for fam in FAM:
    for hd in (2, 3):
        for ld in range(1, hd):
            for own_inverse in (False, True): TASKS.append(Task('reflect_down %s %d to %d%s' % (fam, hd, ld, ', vertices only' if own_inverse else ''), reflect(fam, hd, ld, own_inverse), U, contracts=lambda: FME + INVADJ))
PROP = Prop('P04', TASKS, native=[Native('adj')], assumptions=['every use of a low entity has exactly one stored copy (precondition of find_matches)', 'the vertices of an entity differ'])
