from prop import *
from native import Native
import z3, itertools
from meshc import *
from p02 import C, IV
from p04 import lemma, tab
U = ('refine_topology', 'adj', 'align', 'graph', 'map', 'int_scan', 'array_ops', 'array', 'shared_alloc')
N = 2**31 - 2; CAP = (2**31 - 1) // 16
TASKS = []
def T(name, f, *c, **kw): TASKS.append(Task(name, f, U, contracts=lambda: MESH + [x for n in c for x in globals()[n]], **kw))
def even(n): return [p for p in itertools.permutations(range(n)) if sum(p[i] > p[j] for i in range(n) for j in range(i + 1, n)) % 2 == 0]
def inputs(e, dim):
    M = SymMesh(e, 'simplex', 3, CAP); nk = e.int('nkeys', 0, CAP); nn = e.int('nnew', 0, N); e.cx.scan_cap = CAP
    k2e = e.array('keys2edges', nk, rng=(0, M.n[1])); mid = e.array('keys2midverts', nk, rng=(0, nn)); o2n = e.array('old2new', M.n[0], rng=(0, nn))
    return M, nk, k2e, mid, o2n
def position(e, M, dim, k, k2e):
    """a domain of a key edge: its place in the list, its number, where the edge lies in it"""
    off, up, cd = M.up(1, dim); t = e.ivar('t', 0); p = e.int('p'); ed = e.int('edge'); e.assume(ed == k2e(k)); e.assume(p == off(ed) + t); here = p < off(ed + 1)
    d = up(p); w = off.which(p); low = 2 * cd.rot(p); ev = M.verts(1); V = M.verts(dim); n = dim + 1
    # mesh invariant (P04): the vertices of the edge are those the element names at its place
    for x in range(M.deg(dim, 1)):
        for q in (0, 1): e.assume(z3.Implies(z3.And(here, w == x, low == 2 * q), z3.And(*[ev(ed * 2 + (j ^ q)) == V(d * n + tab(e, 'simplex', dim, 1, x, j)) for j in (0, 1)])))
    return off, p, d, ed, t, here, w, low
def pairs(dim):
    def f(e):
        M, nk, k2e, mid, o2n = inputs(e, dim); r1, r2 = e.sret(), e.sret(); n = dim + 1; V = M.verts(dim); ev = M.verts(1); k = e.ivar('k', 0, nk)
        for r in (r1, r2): e.cx.store(r, NULL, ptr_t(), e.st); e.cx.store(e.cx.padd(r, 8), NULL, ptr_t(), e.st)
        M.lazy = True
        e.call('Omega_h::refine_domains_to_pairs', M.ptr, dim, k2e, mid, o2n, r1, r2)
        L, kp = e.out(r1); LP, pv = e.out(r2); e.prove('offsets: size', L == nk + 1)
        if dim == 1:
            e.prove('two halves per edge', z3.And(kp(k) == 2 * k, kp(nk) == 2 * nk, LP == nk * 4)); g = k2e(k)
            for a in (0, 1): e.prove('half %d: the other end is replaced by the midpoint' % a, z3.And(*[pv(kp(k) * 2 + 2 * a + j) == (o2n(ev(g * 2 + j)) if j == a else mid(k)) for j in (0, 1)]))
            return
        OFF = e.cx.scans[-1][0]; off = M.up(1, dim)[0]; M.reveal()
        e.prove('two halves per domain of the edge', z3.And(kp(IV(0)) == 0, kp(k + 1) - kp(k) == 2 * (off(k2e(k) + 1) - off(k2e(k))), LP == kp(nk) * n)); e.inst(k)
        off, p, d, ed, t, here, w, low = position(e, M, dim, k, k2e); e.inst(k, t)
        lemma(e, 'place of the halves', kp(k) == 2 * OFF(k))
        for a in (0, 1):
            q = e.int('pair%d' % a); e.assume(q == kp(k) + 2 * t + a)
            for x in range(M.deg(dim, 1)):
                for rot in (0, 1):
                    j0 = tab(e, 'simplex', dim, 1, x, a ^ rot); new = [mid(k) if j == j0 else o2n(V(d * n + j)) for j in range(n)]; hyp = z3.And(here, w == x, low == 2 * rot)
                    e.prove('half %d, edge %d of the element, %s: end %d of the edge is replaced by the midpoint, same orientation' % (a, x, 'reversed' if rot else 'same direction', a), z3.Implies(hyp, z3.And(V(d * n + j0) == ev(ed * 2 + a), z3.Or(*[z3.And(*[pv(q * n + i) == new[s[i]] for i in range(n)]) for s in even(n)]))))
    return f
for d in (1, 2, 3): T('refine_domains_to_pairs, dimension %d' % d, pairs(d), 'SCAN')
def cuts(dim):
    def f(e):
        M, nk, k2e, mid, o2n = inputs(e, dim); r1, r2 = nul(e), nul(e); n = dim + 1; V = M.verts(dim); ev = M.verts(1); k = e.ivar('k', 0, nk); M.lazy = True
        e.call('Omega_h::refine_domains_to_cuts', M.ptr, dim, k2e, mid, o2n, r1, r2)
        L, kc = e.out(r1); LC, cv = e.out(r2); off = M.up(1, dim)[0]; M.reveal(); e.prove('offsets: size', L == nk + 1)
        e.prove('one interior entity per domain of the edge', z3.And(kc(IV(0)) == 0, kc(k + 1) - kc(k) == off(k2e(k) + 1) - off(k2e(k)), LC == kc(nk) * dim)); e.inst(k)
        off, p, d, ed, t, here, w, low = position(e, M, dim, k, k2e); e.inst(k, t); q = e.int('cut'); e.assume(q == kc(k) + t)
        for x in range(M.deg(dim, 1)):
            ends = [tab(e, 'simplex', dim, 1, x, a) for a in (0, 1)]; opp = [j for j in range(n) if j not in ends]; new = [o2n(V(d * n + j)) for j in opp] + [mid(k)]
            e.prove('edge %d of the element: the midpoint joined to the opposite vertices' % x, z3.Implies(z3.And(here, w == x), z3.Or(*[z3.And(*[cv(q * dim + i) == new[s[i]] for i in range(dim)]) for s in itertools.permutations(range(dim))])))
    return f
def nul(e):
    r = e.sret()
    for o in (0, 8): e.cx.store(e.cx.padd(r, o), NULL, ptr_t(), e.st)
    return r
for d in (2, 3): T('refine_domains_to_cuts, dimension %d' % d, cuts(d), 'SCAN')
def combine(dim):
    def f(e):
        nk = e.int('nkeys', 0, CAP); e.cx.scan_cap = CAP; n = dim + 1; nc = e.int('ncuts', 0, CAP); np_ = e.int('npairs', 0, CAP)
        kc = e.fan('keys2cuts', nk, nc); kp = e.fan('keys2pairs', nk, np_); cv = e.array('cut_verts', nc * n); pv = e.array('pair_verts', np_ * n); r1, r2 = nul(e), nul(e)
        e.call('Omega_h::combine_pairs_and_cuts', dim, kc, kp, cv, pv, r1, r2)
        L, ko = e.out(r1); LO_, ov = e.out(r2); k = e.ivar('k', 0, nk); t = e.ivar('t', 0); e.inst(k)
        e.induct('offsets add up', nk, lambda q: ko(q) == kp(q) + kc(q))
        e.prove('products per edge', z3.And(L == nk + 1, ko(IV(0)) == 0, ko(k + 1) - ko(k) == (kp(k + 1) - kp(k)) + (kc(k + 1) - kc(k)), LO_ == (np_ + nc) * n))
        e.inst(k, t)
        for j in range(n):
            e.prove('first the halves, in order: vertex %d' % j, z3.Implies(t < kp(k + 1) - kp(k), ov((ko(k) + t) * n + j) == pv((kp(k) + t) * n + j)))
            e.prove('then the interior entities, in order: vertex %d' % j, z3.Implies(t < kc(k + 1) - kc(k), ov((ko(k) + (kp(k + 1) - kp(k)) + t) * n + j) == cv((kc(k) + t) * n + j)))
    return f
for d in (1, 2): T('combine_pairs_and_cuts, dimension %d' % d, combine(d), 'SCAN')
# ---- all products of one dimension: which of the parts above it is made of
def rec(what, ins, outs):
    def h(cx, nm, a, st, Ins):
        def arr(p):
            q = [cx.load(cx.padd(p, o), ptr_t(), st) for o in (0, 8)]
            if q[1].obj is None: raise Unsupported('argument of ' + what)
            return q[1].obj
        vals = [a[i] if isinstance(a[i], int) or kind == 'v' else arr(a[i]) for i, kind in ins]
        cx.calls = getattr(cx, 'calls', []); res = []
        for i, name in outs:
            n = cx.fresh(name + '_len', I); cx.fact(z3.And(n >= 0, n <= CAP), guard=False); f = fnew(cx, name, I, I); lo_rng(cx, f); res.append(mkarr(cx, st, a[i], name, n, 4, 'i', f).obj)
        cx.calls.append((what, vals, res)); return st, None
    return h
PARTS = [(R(r'^Omega_h::refine_domains_to_pairs\('), rec('pairs', [(0, 'v'), (1, 'v'), (2, 'a'), (3, 'a'), (4, 'a')], [(5, 'keys2pairs'), (6, 'pair_verts')])),
    (R(r'^Omega_h::refine_domains_to_cuts\('), rec('cuts', [(0, 'v'), (1, 'v'), (2, 'a'), (3, 'a'), (4, 'a')], [(5, 'keys2cuts'), (6, 'cut_verts')])),
    (R(r'^Omega_h::combine_pairs_and_cuts\('), rec('combine', [(0, 'v'), (1, 'a'), (2, 'a'), (3, 'a'), (4, 'a')], [(5, 'keys2prods'), (6, 'prod_verts')]))]
def products(md, ed):
    def f(e):
        M = SymMesh(e, 'simplex', md, CAP); nk = e.int('nkeys', 0, CAP); nn = e.int('nnew', 0, N); k2e = e.array('keys2edges', nk, rng=(0, M.n[1])); mid = e.array('keys2midverts', nk, rng=(0, nn)); o2n = e.array('old2new', M.n[0], rng=(0, nn)); r1, r2 = nul(e), nul(e); cx = e.cx
        o = lambda a: e.st.objs[a.ptr.obj].cells[8][1].obj
        want = [o(k2e), o(mid), o(o2n)]; e.call('Omega_h::refine_products', M.ptr, ed, k2e, mid, o2n, r1, r2); C_ = {c[0]: c for c in cx.calls}; res = [cx.load(cx.padd(r, 8), ptr_t(), e.st).obj for r in (r1, r2)]
        pa = C_.get('pairs'); e.prove('the halves of the entities of this dimension', len([c for c in cx.calls if c[0] == 'pairs']) == 1 and pa[1][0].obj == M.ptr.obj and pa[1][1:] == [ed] + want)
        if ed == md: e.prove('are all the products', res == pa[2] and len(cx.calls) == 1); return
        cu = C_.get('cuts'); co = C_.get('combine'); e.prove('the interior entities of the next dimension', cu is not None and cu[1][0].obj == M.ptr.obj and cu[1][1:] == [ed + 1] + want)
        e.prove('are combined with the halves', co is not None and co[1] == [ed, cu[2][0], pa[2][0], cu[2][1], pa[2][1]] and res == co[2] and len(cx.calls) == 3)
    return f
for md in (1, 2, 3):
    for ed in range(1, md + 1): T('refine_products, mesh dimension %d, products of dimension %d' % (md, ed), products(md, ed), 'PARTS')
PROP = Prop('P14', TASKS, native=[Native('refine_topo')], assumptions=['one rank', 'an edge lies in each element around it at the place and direction its code names (P04)'])
