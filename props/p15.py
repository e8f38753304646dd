from prop import *
from native import Native
import z3, re
from meshc import *
from p02 import C, IV
from p04 import lemma, tab, adjptr, aout, kernel, fire, sized, rdo
from p14 import position, even, nul
U = ('coarsen_topology', 'collapse_rail', 'check_collapse', 'adj', 'align', 'graph', 'map', 'int_scan', 'array_ops', 'array', 'shared_alloc')
N = 2**31 - 2; CAP = (2**31 - 1) // 16
TASKS = []
def T(name, f, *c, **kw): TASKS.append(Task(name, f, U, contracts=lambda: MESH + [x for n in c for x in globals()[n]], **kw))
def onto(e):
    M = SymMesh(e, 'simplex', 3, CAP); nk = e.int('nkeys', 0, CAP); r2e = e.array('rails2edges', nk, rng=(0, M.n[1])); dr = e.array('dirs', nk, 1, rng=(0, 2)); r = e.sret()
    e.call('Omega_h::get_verts_onto', r, M.ptr, r2e, dr); L, rd = e.out(r); k = e.ivar('k', 0, nk); ev = M.verts(1)
    e.prove('the other end of the edge', z3.And(L == nk, rd(k) == ev(r2e(k) * 2 + 1 - dr(k))))
T('get_verts_onto', onto)
def topo(dim):
    def f(e):
        M = SymMesh(e, 'simplex', 3, CAP); nk = e.int('nkeys', 0, CAP); nn = e.int('nnew', 0, N); n = dim + 1; nd = e.int('ndoms', 0, CAP); on = e.array('verts_onto', nk, rng=(0, M.n[0])); o2n = e.array('old2new', M.n[0]); V = M.verts(dim)
        off = e.fan('keys2doms', nk, nd); dm = e.array('doms', nd, rng=(0, M.n[dim])); W = e.decl('which', 0, rng=None); e.cx.decl_rng[W.name()] = (0, dim); x = z3.Int('x!'); e.assume(z3.ForAll([x], z3.And(0 <= W(x), W(x) <= dim), patterns=[W(x)]))
        cd = M.codes('codes', nd, W, 0); r = e.sret(); e.call('Omega_h::coarsen_topology', r, M.ptr, on, dim, adjptr(e, off, dm, cd), o2n)
        L, rd = e.out(r); k = e.ivar('k', 0, nk); t = e.ivar('t', 0); p = e.int('p'); e.assume(p == off(k) + t); e.inst(k); e.inst(k, t); e.prove('size', L == nd * n)
        for j in range(n): e.prove('vertex %d: the collapsed vertex becomes the one it merges with, the others stay' % j, z3.Implies(p < off(k + 1), rd(p * n + j) == o2n(z3.If(W(p) == j, on(k), V(dm(p) * n + j)))))
    return f
for d in (1, 2, 3): T('coarsen_topology, dimension %d' % d, topo(d))
def domains(dim):
    def f(e):
        M = SymMesh(e, 'simplex', 3, CAP); M.lazy = True; nk = e.int('nkeys', 0, CAP); kv = e.array('keys2verts', nk, rng=(0, M.n[0])); dead = e.array('dead', M.n[dim], 1, rng=(0, 2)); r = e.sret(48); e.cx.scan_cap = CAP
        off, up, cd = M.up(0, dim); e.call('Omega_h::find_coarsen_domains', r, M.ptr, kv, dim, dead)
        L, ko, Mm, ed, MC, co = aout(e, r); k = e.ivar('k', 0, nk); t = e.ivar('t', 0); x = e.ivar('x', 0); cx = e.cx
        OFF = cx.scans[0][0]; Cm, P = cx.collected[0][:2]; cut, own, s = cx.funnels[-1]; W = cx.fan_inv[0]
        e.prove('one list per key', z3.And(L == nk + 1, ko(IV(0)) == 0, Mm == ko(nk), MC == Mm))
        own1 = cx.mono[OFF.name()](IV(0), None)[1].decl()
        # position of the t-th entity around the key's vertex in the gathered lists, and among the live ones
        g = e.int('g'); e.assume(g == OFF(k) + t); e.inst(k); e.inst(k, t); h = off(kv(k)) + t; here = h < off(kv(k) + 1); live = z3.And(here, dead(up(h)) == 0); q = e.int('q'); e.assume(q == P(g))
        lemma(e, 'gathered position', z3.Implies(here, z3.And(0 <= g, g < OFF(k + 1), W(g) == k)))
        for j, g_ in enumerate([own1(g) == k, z3.And(0 <= q, q < Mm, Cm(q) == g), s(q) == k, own(q) == k, z3.And(ko(k) <= q, q < ko(k + 1))]): lemma(e, 'place of a live entity, step %d' % j, z3.Implies(live, g_))
        e.prove('every live entity around the vertex is listed, with its code', z3.Implies(live, z3.And(ko(k) <= q, q < ko(k + 1), ed(q) == up(h), co(q) == cd(h))))
        z = e.int('z'); e.assume(z == Cm(x)); u = e.int('u'); e.assume(z == OFF(k) + u); e.inst(k, u); seg = z3.And(ko(k) <= x, x < ko(k + 1)); i = [z3.And(0 <= x, x < Mm), own(x) == k, s(x) == k, z3.And(0 <= z, z < OFF(nk)), W(z) == k, z3.And(OFF(k) <= z, z < OFF(k + 1)), own1(z) == k]
        for j, g_ in enumerate(i): lemma(e, 'list of an entry, step %d' % j, z3.Implies(seg, g_))
        v = off(kv(k)) + u
        for j, g_ in enumerate([z3.And(off(kv(k)) <= v, v < off(kv(k) + 1)), ed(x) == up(v), co(x) == cd(v), dead(up(v)) == 0]): lemma(e, 'origin of an entry, step %d' % j, z3.Implies(seg, g_))
        e.prove('nothing else is listed', z3.Implies(seg, z3.And(off(kv(k)) <= v, v < off(kv(k) + 1), ed(x) == up(v), co(x) == cd(v), dead(up(v)) == 0)))
        y = e.ivar('y', 0); z2 = e.int('z2'); e.assume(z2 == Cm(y)); e.prove('the order of the entities is kept', z3.Implies(z3.And(seg, x < y, y < ko(k + 1)), z < z2))
    return f
for d in (1, 2, 3): T('find_coarsen_domains, dimension %d' % d, domains(d), 'SCAN', 'CM', 'FANINV')
def tabl(v, g): return g[0] if len(g) == 1 else z3.If(v == len(g) - 1, g[-1], tabl(v, g[:-1]))
def opposite(e, dim, x, b):
    """the side of the element opposite to vertex b of its edge x"""
    jv = tab(e, 'simplex', dim, 1, x, b); o = [s_ for s_ in range(dim + 1) if jv not in [tab(e, 'simplex', dim, dim - 1, s_, i) for i in range(dim)]]; assert len(o) == 1; return IV(o[0])
def side_of(e, M, dim, dn, d, w, rot, a):
    """the side opposite to the vertex that stays when end a of the edge at place w of element d is collapsed"""
    return dn(d * (dim + 1) + tabl(w * 2 + ((1 - a) + rot) % 2, [opposite(e, dim, x, b) for x in range(M.deg(dim, 1)) for b in (0, 1)]))
def dead(dim):
    def f(e):
        M = SymMesh(e, 'simplex', 3, CAP); M.lazy = True; nk = e.int('nkeys', 0, CAP); r2e = e.array('rails2edges', nk, rng=(0, M.n[1])); dr = e.array('dirs', nk, 1, rng=(0, 2)); dc = e.array('dead_cells', M.n[dim], 1); ds = e.array('dead_sides', M.n[dim - 1], 1); k = e.ivar('k', 0, nk)
        e.call('Omega_h::mark_dead_ents', M.ptr, r2e, dr, dim, dc, ds, params='int, Omega_h::Write'); M.reveal(); rc, rs = e.out(dc, 1)[1], e.out(ds, 1)[1]; dn, _ = M.down(dim, dim - 1); ns = dim + 1; off, up, cd = M.up(1, dim)
        _, p, d, ed, t, here, w, low = position(e, M, dim, k, r2e); e.inst(k, t)
        opp = lambda x, b: opposite(e, dim, x, b); side = lambda d_, w_, low_, a_: side_of(e, M, dim, dn, d_, w_, low_ / 2, a_)
        e.prove('every entity around the edge is removed', z3.Implies(here, rc(d) == 1))
        for x in range(M.deg(dim, 1)):
            for a in (0, 1):
                for q in (0, 1): e.prove('edge %d of the element, collapsing end %d%s: the side opposite to the kept vertex is removed' % (x, a, ', reversed' if q else ''), z3.Implies(z3.And(here, w == x, dr(k) == a, low == 2 * q), rs(dn(d * ns + opp(x, (1 - a) ^ q))) == 1))
        x = e.ivar('x', 0)
        for D, X, sk, name in e.cx.witnesses[-2:]:
            name = name[5:-1]; got, old, n = (rc, dc, M.n[dim]) if name == 'cell' else (rs, ds, M.n[dim - 1]); kk, tt = [z3.substitute(v, (X, x)) for v in sk]; kx = e.int('rail'); px = e.int('use'); e.assume(z3.And(kx == kk, px == off(r2e(kk)) + tt)); code = cd(px); near = z3.And(0 <= kx, kx < nk, off(r2e(kx)) <= px, px < off(r2e(kx) + 1))
            e.prove('only %ss of removed elements are marked' % name, z3.Implies(x < n, z3.Or(got(x) == old(x), z3.And(got(x) == 1, near, x == (up(px) if name == 'cell' else side(up(px), code / 8, code % 8, dr(kx)))))))
    return f
for d in (2, 3): T('mark_dead_ents, dimension %d' % d, dead(d))
class Walk:
    """search of a vertex's edges: m is the place of an edge with the wanted global number, not met yet"""
    def __init__(s, lo, hi, m, key, oids, want): s.lo = lo; s.hi = hi; s.m = m; s.key = key; s.oids = oids; s.want = want
    def inv(s, cx, L):
        if len(L.phi) != 1: raise Unsupported('find_rails: more than one value carried by the search')
        v = cx.zi(L.phi[0]); y = z3.Int('y!'); return [('range', z3.And(s.lo <= v, v <= s.hi)), ('the wanted edge lies ahead', v <= s.m)]
    def variant(s, L): return s.hi - L.phi[0]
def rails(e):
    M = SymMesh(e, 'simplex', 3, CAP); nk = e.int('nkeys', 0, CAP); kv = e.array('keys2verts', nk, rng=(0, M.n[0])); vr = e.array('verts2rail', M.n[0], 8); G = M.tag(1, 'global', 8, 'i'); off, up, cd = M.up(0, 1); k = e.ivar('k', 0, nk)
    m = e.int('m'); lo, hi = off(kv(k)), off(kv(k) + 1); r1, r2 = nul(e), nul(e); e.assume(z3.And(lo <= m, m < hi, G(up(m)) == vr(kv(k))))
    W = Walk(lo, hi, m, k, None, None); e.cx.invariants = [('find_rails', 0, W)]
    fn, clo, new = kernel(e, 'find_rails', [M.ptr, kv, vr, r1, r2], k)
    a, b = sized(e, new, e.cx.muli(4, nk)), sized(e, new, nk); st0 = fire(e, fn, clo, k); A, B, A0, B0 = rdo(e, e.st, a), rdo(e, e.st, b, 1), rdo(e, st0, a), rdo(e, st0, b, 1); z = e.ivar('z', 0, nk); ev = M.verts(1)
    e.prove('the rail is the edge with that global number', z3.And(0 <= A(k), A(k) < M.n[1], G(A(k)) == vr(kv(k))))
    e.prove('and the direction names the end the vertex is at', z3.And(z3.Or(B(k) == 0, B(k) == 1), ev(A(k) * 2 + B(k)) == kv(k)))
    e.prove('results of other keys are untouched', z3.Implies(z != k, z3.And(A(z) == A0(z), B(z) == B0(z))))
T('find_rails: one key', rails)
def bit(c, a): return (c / (1 << a)) % 2 == 1
def cls(e):
    M = SymMesh(e, 'simplex', 3, CAP); nc = e.int('ncands', 0, CAP); c2e = e.array('cands2edges', nc, rng=(0, M.n[1])); cc = e.array('cand_codes', nc, 1, rng=(0, 4)); vd, ed = [M.tag(d, 'class_dim', 1, 'i', rng=(0, 4)) for d in (0, 1)]; r = e.sret(); ev = M.verts(1); k = e.ivar('k', 0, nc)
    e.call('Omega_h::check_collapse_class', r, M.ptr, c2e, cc); L, rd = e.out(r, 1); e.inst(k); g = c2e(k); e.prove('size', L == nc)
    for a in (0, 1): e.prove('end %d may collapse only onto the same piece of the model: the vertex, and the edge, are of one model dimension' % a, z3.And(0 <= rd(k), rd(k) < 4, bit(rd(k), a) == z3.And(bit(cc(k), a), vd(ev(2 * g + a)) == ed(g))))
T('check_collapse_class', cls)
def expo(dim):
    def f(e):
        M = SymMesh(e, 'simplex', 3, CAP); nc = e.int('ncands', 0, CAP); c2e = e.array('cands2edges', nc, rng=(0, M.n[1])); cc = e.array('cand_codes', nc, 1, rng=(0, 4)); kd, sd = [M.tag(d, 'class_dim', 1, 'i', rng=(0, 4)) for d in (dim, dim - 1)]; r = e.sret(); k = e.ivar('k', 0, nc)
        e.call('Omega_h::check_collapse_exposure', r, M.ptr, c2e, cc, dim, params='signed char>, int'); L, rd = e.out(r, 1); e.prove('size', L == nc)
        off, up, cd = M.up(1, dim); dn, _ = M.down(dim, dim - 1); ns = dim + 1; F = e.foldG(-1, k); ln = e.int('len'); b0 = e.int('b'); e.assume(z3.And(b0 == off(c2e(k)), ln == off(c2e(k) + 1) - b0)); e.inst(k)
        x = e.ivar('x', 0)
        t = e.ivar('t', 0); p = e.int('p'); e.assume(p == b0 + t); d = up(p); F0, F1 = e.int('before'), e.int('after'); e.assume(z3.And(F0 == F(t), F1 == F(t + 1))); y = z3.Int('x!')
        G = [z3.Function('same_dimension_%d' % a, z3.IntSort(), z3.BoolSort()) for a in (0, 1)]    # G[a](x) stands for the comparison at every use x of the edge: nothing else is known of it
        for a in (0, 1): e.assume(G[a](t) == (sd(side_of(e, M, dim, dn, d, off.which(p), cd.rot(p), a)) == kd(d)))
        def step(t, A, B): return z3.And(0 <= B, B < 4, *[bit(B, a) == z3.And(bit(A, a), G[a](t)) for a in (0, 1)])
        rng = lambda t, A: z3.And(0 <= t, t < ln, 0 <= A, A < 4)
        for x_ in range(M.deg(dim, 1)):
            for q in (0, 1):
                for c in range(4): lemma(e, 'one element, edge %d of it%s, code %d' % (x_, ', reversed' * q, c), z3.Implies(z3.And(rng(t, F0), off.which(p) == x_, cd.rot(p) == q, F0 == c), step(t, F0, F1)))
        lemma(e, 'one element', z3.Implies(rng(t, F0), step(t, F0, F1))); e.assume(z3.ForAll([y], z3.Implies(rng(y, F(y)), step(y, F(y), F(y + 1))), patterns=[F(y + 1)]))
        for a in (0, 1):
            good = G[a]
            e.induct('end %d: once excluded, stays excluded' % a, ln, lambda t: z3.And(0 <= F(t), F(t) < 4, z3.Implies(bit(F(t), a), bit(cc(k), a)), z3.Implies(z3.And(x < t, z3.Not(good(x))), z3.Not(bit(F(t), a)))))
            w = e.ghost('witness%d' % a, ln, IV(-1), lambda t, g: z3.If(z3.And(bit(F(t), a), z3.Not(good(t))), t, g))
            e.induct('end %d: excluded by a witness' % a, ln, lambda t: z3.And(0 <= F(t), F(t) < 4, z3.Implies(z3.And(bit(cc(k), a), z3.Not(bit(F(t), a))), z3.And(0 <= w(t), w(t) < t, z3.Not(good(w(t)))))))
            e.prove('end %d: not collapsed onto the other where a side would change its model dimension' % a, z3.And(z3.Implies(bit(rd(k), a), bit(cc(k), a)), z3.Implies(z3.And(x < ln, bit(rd(k), a)), good(x))))
            e.prove('end %d: excluded only for such a side' % a, z3.Implies(z3.And(bit(cc(k), a), z3.Not(bit(rd(k), a))), z3.And(0 <= w(ln), w(ln) < ln, z3.Not(good(w(ln))))))
    return f
for d in (2, 3): T('check_collapse_exposure, dimension %d' % d, expo(d))
def dead_h(cx, nm, a, st, Ins):
    """task 'mark_dead_ents, dimension d' """
    top(cx, nm); M, dim = cx.mesh, a[3]; old = M.e.st; M.e.st = st; off, up, cd = M.up(1, dim); dn, _ = M.down(dim, dim - 1); M.e.st = old
    nk, r2e = rdh(cx, st, a[1]); nd, dr = rdh(cx, st, a[2], 1); nk, nd = cx.zi(nk), cx.zi(nd); n = [cx.zi(rdh(cx, st, h, 1)[0]) for h in a[4:6]]; k = cx.fresh('k', z3.IntSort()); rng = z3.And(0 <= k, k < nk); x, y = z3.Ints('x! y!')
    cx.oblige('mark_dead_ents: one mark per entity, rails are edges, directions are 0 or 1', z3.And(nd == nk, n[0] == M.n[dim], n[1] == M.n[dim - 1], z3.Implies(rng, z3.And(0 <= r2e(k), r2e(k) < M.n[1], 0 <= dr(k), dr(k) <= 1))), 'pre', st.pc)
    hit = [z3.Function(cx.fresh_name('dead%d' % i), z3.IntSort(), z3.BoolSort()) for i in (0, 1)]; cx.keep.extend(hit); G = lambda y, x: z3.And(0 <= y, y < nk, off(r2e(y)) <= x, x < off(r2e(y) + 1))
    s_ = lambda y, x: dn(up(x) * (dim + 1) + tabl(off.which(x) * 2 + ((1 - dr(y)) + cd.rot(x)) % 2, cx.opp[dim]))
    cx.fact(z3.ForAll([y, x], z3.Implies(G(y, x), z3.And(hit[0](up(x)), hit[1](s_(y, x)))), patterns=[z3.MultiPattern(r2e(y), off.which(x))]), guard=False)
    W = [[fnew(cx, 'by', z3.IntSort(), z3.IntSort()) for _ in range(2)] for _ in range(2)]
    for i in (0, 1):
        u, v = [w(x) for w in W[i]]; cx.fact(z3.ForAll([x], z3.Implies(hit[i](x), z3.And(G(u, v), x == (up(v) if i == 0 else s_(u, v)))), patterns=[hit[i](x)]), guard=False)
        arr = cx.load(cx.padd(a[4 + i], 8), ptr_t(), st); prev = cx.typed(arr.obj, st.objs[arr.obj], int_t(8), st).c
        st.objs[arr.obj] = ArrC(1, 'i', AFun(lambda t, prev=prev, h=hit[i]: cx.ite(h(cx.zi(t)), 1, prev.read(t, cx))))
    return st, None
DEAD = [(re.compile(r'^Omega_h::mark_dead_ents\(.*, int, '), dead_h)]
def dead_all(dim):
    def f(e):
        M = SymMesh(e, 'simplex', dim, CAP); M.lazy = True; nk = e.int('nkeys', 0, CAP); r2e = e.array('rails2edges', nk, rng=(0, M.n[1])); dr = e.array('dirs', nk, 1, rng=(0, 2)); k = e.ivar('k', 0, nk); r = e.sret(64); e.cx.opp = {h: [opposite(e, h, x, b) for x in range(M.deg(h, 1)) for b in (0, 1)] for h in range(2, dim + 1)}
        e.call('Omega_h::mark_dead_ents', r, M.ptr, r2e, dr, params='Omega_h::Mesh*, Omega_h::Read<int>, Omega_h::Read<signed char>)'); M.reveal(); got = [e.out(e.cx.padd(r, 16 * d), 1) for d in range(1, dim + 1)]; 
        for d in range(1, dim + 1): e.prove('one mark per entity of dimension %d' % d, got[d - 1][0] == M.n[d])
        e.prove('the edges that collapse are removed', got[0][1](r2e(k)) == 1)
        for h in range(2, dim + 1):
            off, p, d, ed, t, here, w, low = position(e, M, h, k, r2e); dn, _ = M.down(h, h - 1)
            e.prove('every entity of dimension %d around such an edge is removed' % h, z3.Implies(here, got[h - 1][1](d) == 1))
            for x in range(M.deg(h, 1)):
                for a in (0, 1):
                    for q in (0, 1): e.prove('dimension %d, edge %d of the element, collapsing end %d%s: the side opposite to the kept vertex is removed' % (h, x, a, ', reversed' if q else ''), z3.Implies(z3.And(here, w == x, dr(k) == a, low == 2 * q), got[h - 2][1](dn(d * (h + 1) + opposite(e, h, x, (1 - a) ^ q))) == 1))
    return f
for d in (2, 3): T('mark_dead_ents, all dimensions, mesh of dimension %d' % d, dead_all(d), 'DEAD')
PROP = Prop('P15', TASKS, native=[Native('coarsen_topo')], assumptions=['one rank','the mesh satisfies the adjacency relations of P04','choose_rails is compared with a brute-force search on random meshes only (bounded)'])
