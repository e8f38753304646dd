from prop import *
from native import Native
import z3, itertools
from meshc import *
from p02 import C, IV
from p04 import lemma, tab, kernel, closure, fire, sized, rdo
from p14 import nul
U2 = ('swap2d_topology', 'adj', 'align', 'graph', 'map', 'int_scan', 'array_ops', 'array', 'shared_alloc')
U3 = ('swap3d_topology', 'adj', 'align', 'graph', 'map', 'int_scan', 'array_ops', 'array', 'shared_alloc')
N = 2**31 - 2; CAP = (2**31 - 1) // 48
TASKS = []
def T(name, f, *c, U=U3, **kw): TASKS.append(Task(name, f, U, contracts=lambda: MESH + [x for n in c for x in globals()[n]], **kw))
def cyc(a): return [a[i:] + a[:i] for i in range(len(a))]
def few(e, n): 
    r = e.sret(16 * n)
    for o in range(0, 16 * n, 8): e.cx.store(e.cx.padd(r, o), NULL, ptr_t(), e.st)
    return r
def body_of(e, func, handles, *names):
    """one iteration of the parallel loop of `func`, whether its body is a lambda or a function object"""
    cx = e.cx; had = set(e.st.objs); key = 'Omega_h::' + func
    fns = [x for x in cx.mod.defs if 'operator()(int)' in dem(x) and dem(x).startswith((key + '(', key + '<') + tuple('Omega_h::' + n + '::' for n in names))]
    if len(fns) != 1: raise Unsupported('kernel of %s: %d candidates' % (func, len(fns)))
    fn = cx.mod.function(fns[0]); clo = closure(e, fn, key, handles)
    return fn, clo, [o for o in e.st.objs if o not in had and cx.meta[o].nbytes is not None and not isinstance(e.st.objs[o], RecC)]
def swap2(q):
    def f(e):
        M = SymMesh(e, 'simplex', 2, CAP); nk = e.int('nkeys', 0, CAP); k2e = e.array('keys2edges', nk, rng=(0, M.n[1])); k = e.ivar('k', 0, nk); r1, r2 = few(e, 3), few(e, 3)
        off, up, cd = M.up(1, 2); V = M.verts(2); ev = M.verts(1); g = e.int('edge'); e.assume(g == k2e(k)); p = e.int('p'); e.assume(p == off(g)); e.assume(off(g + 1) == off(g) + 2)
        W = off.which; e.assume(z3.And(cd.rot(p) == q, cd.rot(p + 1) == 1 - q))
        fn, clo, new = body_of(e, 'swap2d_topology', [M.ptr, k2e, r1, r2], 'swap2d_topology_functor'); a, b = sized(e, new, e.cx.muli(8, nk)), sized(e, new, e.cx.muli(24, nk))
        st0 = fire(e, fn, clo, k); A, B, A0, B0 = rdo(e, e.st, a), rdo(e, e.st, b), rdo(e, st0, a), rdo(e, st0, b); z = e.ivar('z', 0)
        e0, e1 = ev(g * 2), ev(g * 2 + 1); t = [up(p + (i ^ q)) for i in (0, 1)]; w = [W(p + (i ^ q)) for i in (0, 1)]; o = [e.int('opposite%d' % i) for i in (0, 1)]
        for i in (0, 1):
            for x in range(3):
                s = [tab(e, 'simplex', 2, 1, x, j) for j in (0, 1)]; s.append(3 - sum(s)); even = s in cyc([0, 1, 2])
                # mesh invariant (P04), and what `opposite` means
                e.assume(z3.Implies(w[i] == x, z3.And(V(t[i] * 3 + s[0]) == (e1 if i else e0), V(t[i] * 3 + s[1]) == (e0 if i else e1), V(t[i] * 3 + s[2]) == o[i])))
                e.prove('tables: side %d runs with the triangle' % x, z3.BoolVal(even), 'lemma')
        old = [[e0, e1, o[0]], [e1, e0, o[1]]]; new = [[e1, o[0], o[1]], [e0, o[1], o[0]]]
        is_cyc = lambda got, want: z3.Or(*[z3.And(*[x == y for x, y in zip(got, c)]) for c in cyc(want)])
        got = [[B((k * 2 + i) * 3 + j) for j in range(3)] for i in (0, 1)]; ge = [A(k * 2 + j) for j in (0, 1)]
        for i in (0, 1):
            for x in range(3): lemma(e, 'the opposite vertex of triangle %d, edge at %d' % (i, x), z3.Implies(w[i] == x, z3.Or(ge[0] == o[i], ge[1] == o[i])))
        e.prove('the new edge joins the two opposite vertices', z3.Or(z3.And(ge[0] == o[0], ge[1] == o[1]), z3.And(ge[0] == o[1], ge[1] == o[0])))
        e.prove('the new triangles keep the orientation of the old ones', z3.Or(*[z3.And(is_cyc(got[0], new[i]), is_cyc(got[1], new[1 - i])) for i in (0, 1)]))
        e.prove('entities of other keys are untouched', z3.And(z3.Implies(z3.Or(z < k * 2, z >= k * 2 + 2), A(z) == A0(z)), z3.Implies(z3.Or(z < k * 6, z >= k * 6 + 6), B(z) == B0(z))))
    return f
for q in (0, 1): T('swap2d_topology: one edge, first triangle %s' % ('with the edge', 'against it')[q], swap2(q), U=U2)
def swap2_out(e):
    M = SymMesh(e, 'simplex', 2, CAP); nk = e.int('nkeys', 0, CAP); k2e = e.array('keys2edges', nk, rng=(0, M.n[1])); k = e.ivar('k', 0); r1, r2 = few(e, 3), few(e, 3)
    e.cx.contracts = [(R(r'Omega_h::parallel_for<.*swap2d_topology'), noop)] + list(e.cx.contracts); e.cx.ccache.clear()   # the loop itself: the tasks above
    e.call('Omega_h::swap2d_topology', M.ptr, k2e, r1, r2)
    for d, n in ((1, 1), (2, 2)):
        L, rd = e.out(e.cx.padd(r1, 16 * d)); LP, _ = e.out(e.cx.padd(r2, 16 * d))
        e.prove('%d products of dimension %d per key, in order' % (n, d), z3.And(L == nk + 1, z3.Implies(k <= nk, rd(k) == n * k), LP == nk * n * (d + 1)))
T('swap2d_topology: results', swap2_out, U=U2)
def counts(e):
    M = SymMesh(e, 'simplex', 3, CAP); nk = e.int('nkeys', 0, CAP); k2e = e.array('keys2edges', nk, rng=(0, M.n[1])); k = e.ivar('k', 0, nk); r = few(e, 4); off, up, cd = M.up(1, 3); e.cx.scan_cap = CAP; x = z3.Int('x!')
    e.assume(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < nk), z3.And(3 <= off(k2e(x) + 1) - off(k2e(x)), off(k2e(x) + 1) - off(k2e(x)) <= 7)), patterns=[k2e(x)]))
    e.call('Omega_h::swap3d_keys_to_prods', r, M.ptr, k2e); n = e.int('ring'); e.assume(n == off(k2e(k) + 1) - off(k2e(k))); e.inst(k)
    for d, c in ((1, n - 3), (2, (n - 2) + 2 * (n - 3)), (3, 2 * (n - 2))):
        L, rd = e.out(e.cx.padd(r, 16 * d)); e.prove('dimension %d: number of products of a ring of n tetrahedra' % d, z3.And(L == nk + 1, rd(IV(0)) == 0, rd(k + 1) - rd(k) == c))
T('swap3d_keys_to_prods', counts, 'SCAN')
def curl(e, x, q):
    """local vertices of a tetrahedron (a, b, u, v): its edge x taken in direction q, and the opposite
    edge directed so that (a, b, u, v) is an even permutation of the vertices"""
    a, b = [tab(e, 'simplex', 3, 1, x, j ^ q) for j in (0, 1)]; u, v = [j for j in range(4) if j not in (a, b)]; p = [a, b, u, v]
    return (u, v) if sum(p[i] > p[j] for i in range(4) for j in range(i + 1, 4)) % 2 == 0 else (v, u)
def around(e, M, g, n):
    """the n tetrahedra around edge g, in the order they are stored; from[i], to[i]: the edge of tetrahedron i
    opposite to g, directed counterclockwise.  What the code reads from the vertex lists is shown to be one of these."""
    off, up, cd = M.up(1, 3); V = M.verts(3); W = off.which; p = e.int('p', 0, CAP * 6); e.assume(p == off(g)); e.assume(off(g + 1) == p + n); cx = e.cx
    at = lambda A: e.st.objs[A.ptr.obj].cells[8][1].obj
    o = at(off); old = e.st.objs[o].c
    e.st.objs[o] = ArrC(4, 'i', AFun(lambda x: cx.ite(cx.eqi(x, g), p, cx.ite(cx.eqi(x, g + 1), p + n, old.read(x, cx)))))    # the same array: its two entries around g are known
    fr, to = [[e.int('%s%d' % (w, i)) for i in range(n)] for w in ('from', 'to')]; facts = []
    for i in range(n):
        q_ = [z3.And(0 <= W(p + i), W(p + i) < 6, 0 <= cd.rot(p + i), cd.rot(p + i) < 2)]
        for x in range(6):
            for q in (0, 1):
                u, v = curl(e, x, q); d = up(p + i) * 4; q_.append(z3.Implies(z3.And(W(p + i) == x, cd.rot(p + i) == q), z3.And(V(d + u) == fr[i], V(d + v) == to[i])))
        for f in q_[1:]: e.assume(f)
        facts.append(q_)
    known = {}; case = e.case = [None]; o = at(V)
    def read(x):
        x = cx.zi(x); k = x.get_id()
        if k not in known:
            known[k] = (x, None)
            for i in range(n):
                s = z3.Solver(); s.set('timeout', 3000); s.add(*facts[i]); s.add(z3.Not(z3.Or(V(x) == fr[i], V(x) == to[i])))
                if s.check() != z3.unsat: continue
                for j, t in enumerate((fr[i], to[i])):
                    s = z3.Solver(); s.set('timeout', 3000); s.add(*facts[i]); s.add(V(x) != t)
                    if s.check() == z3.unsat: lemma(e, 'the %s of the edge opposite in tetrahedron %d' % (('start', 'end')[j], i), V(x) == t); known[k] = (x, (i, j)); break
                break
        h = known[k][1]; return V(x) if h is None else (fr, to)[h[1]][h[0]] if case[0] is None else case[0][h[0]][h[1]]
    e.st.objs[o] = ArrC(4, 'i', AFun(read)); return off, up, cd, fr, to
def loop(n, second=None):
    def f(e):
        M = SymMesh(e, 'simplex', 3, CAP); g = e.ivar('edge', 0, M.n[1]); off, up, cd, fr, to = around(e, M, g, n); cx = e.cx; ev = M.verts(1); V = M.verts(3)
        r = [e.int('ring%d' % i) for i in range(n)]; e.assume(z3.Distinct(*r)); cx.distinct = {'ring%d' % i for i in range(n)}; st = e.st; seen = {}
        # a closed ring r[0], ..., r[n-1] that starts at the first tetrahedron: all orders of the others
        for perm in itertools.permutations(range(1, n)):
            if second not in (None, perm[0]): continue
            s = (0,) + perm; hyp = z3.And(*[z3.And(fr[i] == r[s[i]], to[i] == r[(s[i] + 1) % n]) for i in range(n)])
            e.st = State(dict(st.objs), st.pc); cx.cur_pc = e.st.pc; e.case[0] = [(r[s[i]], r[(s[i] + 1) % n]) for i in range(n)]; rr = e.sret(40); mark = len(cx.obls)
            e.call('Omega_h::swap3d::find_loop', rr, off, up, cd, ev, V, g); at = lambda o: cx.zi(cx.load(cx.padd(rr, o), int_t(32), e.st))
            new = [(o, z3.simplify(o.goal)) for o in cx.obls[mark:]]; cx.obls[mark:] = [o for o, t in new if t.get_id() not in seen]    # asked before, from the same hypotheses
            for o, t in new: seen[t.get_id()] = t
            ok = z3.simplify(z3.And(at(0) == n, at(4) == ev(g * 2), at(8) == ev(g * 2 + 1), *[at(12 + 4 * j) == r[j] for j in range(n)]))
            e.prove('order %s: the ring counterclockwise, its size and the ends of the edge' % ''.join(map(str, s)), ok if z3.is_true(ok) else z3.Implies(hyp, ok))
    return f
for n in range(3, 7): T('find_loop, %d tetrahedra' % n, loop(n), passes='mem2reg')
for i in range(1, 7): T('find_loop, 7 tetrahedra, the second one at place %d' % i, loop(7, i), passes='mem2reg')
def loop_h(n, r, ends):
    """find_loop: tasks 'find_loop, n tetrahedra'"""
    def h(cx, nm, a, st, Ins):
        v = [n] + list(ends) + list(r); e = cx.loop_args; off, up, cd, ev, V, g = e
        for got, want in zip(a[1:6], (off, up, cd, ev, V)):
            for o in (0, 8):
                if not cx.veq(cx.load(cx.padd(got, o), ptr_t(), st), cx.load(cx.padd(want.ptr, o), ptr_t(), st)): raise Unsupported('find_loop on other arrays')
        cx.oblige('find_loop is asked for the edge of the key', cx.zi(a[6]) == g, 'pre', st.pc)
        for i, x in enumerate(v): cx.store(cx.padd(a[0], 4 * i), x, int_t(32), st)
        return st, None
    return h
COUNTS = {3: 1, 4: 2, 5: 5, 6: 14, 7: 42}
def cavity(n, lo, hi):
    """one key edge with a ring of n tetrahedra, each tabulated configuration lo <= c < hi"""
    def f(e):
        cx = e.cx; M = SymMesh(e, 'simplex', 3, CAP); nk = e.int('nkeys', 0, CAP); k2e = e.array('keys2edges', nk, rng=(0, M.n[1])); k = e.ivar('k', 0, nk); g = k2e(k); off, up, cd = M.up(1, 3); ev = M.verts(1); V = M.verts(3)
        r = [e.int('ring%d' % i) for i in range(n)]; ends = [e.int('end%d' % i) for i in (0, 1)]; e.assume(z3.Distinct(*r, *ends)); cx.distinct = {str(x) for x in r + ends}; cx.loop_args = (off, up, cd, ev, V, g)
        cf = e.array('configs', M.n[1], 1); o = e.st.objs[cf.ptr.obj].cells[8][1].obj; box = [None]
        e.st.objs[o] = ArrC(1, 'i', AFun(lambda x: cx.ite(cx.eqi(x, g), box[0], cf.decl(cx.zi(x)))))
        num = {1: n - 3, 2: (n - 2) + 2 * (n - 3), 3: 2 * (n - 2)}; tot = {d: e.int('nprods%d' % d, 0, CAP) for d in (1, 2, 3)}; P = {d: e.fan('keys2prods%d' % d, nk, tot[d]) for d in (1, 2, 3)}; hf = few(e, 4)
        for d in (1, 2, 3):
            e.assume(P[d](k + 1) == P[d](k) + num[d])      # task 'swap3d_keys_to_prods'
            for w in (0, 8): cx.store(cx.padd(hf, 16 * d + w), cx.load(cx.padd(P[d].ptr, w), ptr_t(), e.st), ptr_t(), e.st)
        cx.contracts = [(R(r'Omega_h::swap3d::find_loop\('), loop_h(n, r, ends))] + list(cx.contracts); cx.ccache.clear(); rr = few(e, 4)
        box[0] = cf.decl(g); fn, clo, new = body_of(e, 'swap3d_topology', [rr, M.ptr, k2e, cf, hf]); st = e.st
        arrs = {d: sized_by(e, new, 4 * (d + 1) * tot[d], [P[d](nk) == tot[d]]) for d in (1, 2, 3)}; names = {str(x): x for x in r + ends}
        for d in arrs: st.objs[arrs[d]] = ArrC(4, 'i', ABase(e.decl('old%d' % d, 0)))    # whatever the fresh arrays hold
        for c in range(lo, hi):
            box[0] = c; glob = {o: v for o, v in e.st.objs.items() if o in cx.globals.values()}; e.st = State({**glob, **st.objs}, st.pc); cx.cur_pc = st.pc; cx.depth = 0; fire(e, fn, clo, k); out = {}; W = lambda s: 'ring of %d, configuration %d: %s' % (n, c, s); x = e.ivar('x%d' % c)
            for d in (1, 2, 3):
                rd = rdo(e, e.st, arrs[d]); b = P[d](k) * (d + 1); got = [[str(rd(b + i * (d + 1) + j)) for j in range(d + 1)] for i in range(num[d])]; out[d] = got
                rd0 = rdo(e, st, arrs[d])
                e.prove(W('dimension %d: vertices of the cavity only' % d), z3.And(True, *[rd(b + i * (d + 1) + j) == names.get(v, rd0(b + i * (d + 1) + j) - 1) for i, q in enumerate(got) for j, v in enumerate(q)]))
                e.prove(W('dimension %d: entities of other keys are untouched' % d), z3.Implies(z3.Or(x < b, x >= b + num[d] * (d + 1)), rd(x) == rd0(x)))
            ok = {'interior edges': False}
            if all(v in names for d in out for q in out[d] for v in q): ok = combinatorics(n, out, [str(x) for x in r], [str(x) for x in ends])
            for w, v in ok.items(): e.prove(W(w), z3.BoolVal(bool(v)))
    return f
def sized_by(e, new, nb, facts):
    """the array of that many bytes among those the function allocated, given these facts"""
    def is_it(o):
        s = z3.Solver(); s.set('timeout', 2000); s.add(*facts); s.add(e.cx.zi(e.cx.meta[o].nbytes) != nb); return s.check() == z3.unsat
    o = [x for x in new if is_it(x)]
    if len(o) != 1: raise Unsupported('array of the given size: %d' % len(o))
    return o[0]
def parity(p): return sum(p[i] > p[j] for i in range(len(p)) for j in range(i + 1, len(p))) % 2
def combinatorics(n, out, r, ends):
    """the new entities fill the ring polygon and the cavity: decided on the vertex lists the code produced"""
    idx = {v: i for i, v in enumerate(r)}; e0, e1 = ends; flat = [sorted(q, key=idx.get) for q in out[2] if not set(q) & set(ends)]; raw = [q for q in out[2] if not set(q) & set(ends)]
    tri = [tuple(idx[v] for v in q) for q in raw]
    # positively oriented (counterclockwise in the ring), n-2 of them, and their boundary is exactly the polygon: then they tile it
    pos = len(tri) == n - 2 and all(len(set(t)) == 3 and parity(t) == 0 for t in tri); half = [(t[i], t[(i + 1) % 3]) for t in tri for i in range(3)]; poly = [(i, (i + 1) % n) for i in range(n)]
    diag = [h for h in half if h not in poly]; tiles = len(set(half)) == len(half) and all(h in half for h in poly) and all((b, a) in half for a, b in diag)
    und = lambda q: frozenset(q); edges = [und(q) for q in out[1]]; want = {und(r[i] for i in h) for h in diag}
    sides = [und(q) for q in out[2] if set(q) & set(ends)]; wants = {und(set(w) | {x}) for w in want for x in ends}
    # each plane triangle carries two tetrahedra, positively oriented with the end of the edge on either side
    full = {v: i for i, v in enumerate(r)}; tets = []
    for q in out[3]:
        s = set(q) & set(ends)
        if len(s) != 1 or len(set(q)) != 4: tets.append(None); continue
        x = s.pop(); base = sorted((idx[v] for v in q if v != x)); order = [[idx.get(v, 99) for v in q].index(w) for w in base + [99]]
        tets.append((tuple(base), x, parity(order)))
    wt = {(tuple(sorted(t)), x, 0 if x == e1 else 1) for t in tri for x in ends}
    return {'the plane triangles tile the ring polygon, all counterclockwise': pos and tiles, 'the new edges are exactly the interior edges of the tiling': len(edges) == n - 3 and set(edges) == want,
            'each interior edge is joined to both ends of the old edge': len(sides) == 2 * (n - 3) and set(sides) == wants, 'each plane triangle carries one tetrahedron towards each end of the old edge, of the orientation of the old ones': len(tets) == 2 * (n - 2) and set(tets) == wt}
for n in range(3, 7): T('swap3d_topology: one edge, ring of %d tetrahedra' % n, cavity(n, 0, COUNTS[n]))
for i in range(0, 42, 6): T('swap3d_topology: one edge, ring of 7 tetrahedra, configurations %d to %d' % (i, i + 5), cavity(7, i, i + 6))
PROP = Prop('P16', TASKS, native=[Native("swap_topo")], assumptions=['one rank','the mesh satisfies the adjacency relations of P04'])
