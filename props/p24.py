from prop import *
from native import Native
import z3, itertools
from meshc import *
from p02 import C, IV
from p04 import lemma, kernel, fire, sized, rdo, Grab
from p05 import BV, asbv
from p16 import few
U = ('adj', 'amr_topology', 'amr_transfer', 'align', 'graph', 'map', 'int_scan', 'array_ops', 'array', 'shared_alloc')
N = 2**31 - 2; CAP = (2**31 - 1) // 64
TASKS = []
def T(name, f, *c, U=U, **kw): TASKS.append(Task(name, f, U, contracts=lambda: MESH + [x for n in c for x in globals()[n]], **kw))
H = '''#include <Omega_h_amr.hpp>
#include <Omega_h_element.hpp>
#include <Omega_h_hypercube.hpp>
using namespace Omega_h;
signed char w_make(int w, int d) { return amr::make_code(w, d); }
int w_child(signed char c) { return amr::code_which_child(c); }
int w_pdim(signed char c) { return amr::code_parent_dim(c); }
int w_hdown(int e, int b, int i, int v) { return hypercube_down_template(e, b, i, v); }
int w_hdeg(int a, int b) { return hypercube_degree(a, b); }
int w_sdeg(int a, int b) { return hypercube_split_degree(a, b); }
int w_sdim(int p, int c, int i, int v) { return hypercube_split_template(p, c, i, v).dim; }
int w_swhich(int p, int c, int i, int v) { return hypercube_split_template(p, c, i, v).which_down; }
'''
def codes(e):
    w, d = BV('which_child', 32), BV('parent_dim', 32); e.assume(z3.And(z3.ULE(w, 31), z3.ULE(d, 3)))
    c = asbv(e.call('w_make', w, d), 8)
    e.prove('the child position comes back', asbv(e.call('w_child', c), 32) == w); e.prove('the parent dimension comes back', asbv(e.call('w_pdim', c), 32) == d)
TASKS.append(Task('parent codes', codes, extra=H, mode='bv'))
# ---- tables
REF = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]     # vertices of the reference cube
NVTX = {0: 1, 1: 2, 2: 4, 3: 8}
def comb(n, k):
    from math import comb as c
    return c(n, k)
def num(e, nm, *a):
    v = e.call(nm, *a); v = v if isinstance(v, int) else z3.simplify(v).as_signed_long()
    return v
def subdivision(d):
    def f(e):
        node = {}
        for b in range(d + 1):
            n = num(e, 'w_hdeg', d, b); ok = n == comb(d, b) * 2**(d - b); e.prove('a %d-cube has %d sides of dimension %d' % (d, n, b), z3.BoolVal(ok))
            if not ok: return
            for i in range(n):
                vs = [num(e, 'w_hdown', d, b, i, v) for v in range(NVTX[b])] if b < d else list(range(NVTX[d]))
                if not all(0 <= v < NVTX[d] for v in vs): e.prove('vertices of side %d of dimension %d' % (i, b), z3.BoolVal(False)); return
                node[(b, i)] = tuple(sum(2 * REF[v][a] for v in vs) // len(vs) for a in range(d))     # in a cube of size 2
        e.prove('the nodes are the points of a 3^%d grid' % d, z3.BoolVal(sorted(node.values()) == sorted(itertools.product(range(3), repeat=d))))
        for c in range(d + 1):
            nc = num(e, 'w_sdeg', d, c); want = comb(d, c) * 2**c; e.prove('%d children of dimension %d' % (want, c), z3.BoolVal(nc == want))
            if nc != want: continue
            seen = set(); inside = affine = right = dual = known = True
            for i in range(nc):
                key = [(num(e, 'w_sdim', d, c, i, v), num(e, 'w_swhich', d, c, i, v)) for v in range(NVTX[c])]
                if any(k not in node for k in key): known = False; break
                P = [node[k] for k in key]; seen.add(tuple(sorted(P)))
                o = P[0]; ax = [P[j] for j in ((1,), (1, 3), (1, 3, 4))[c - 1]] if c else []; A = [tuple(x - y for x, y in zip(p, o)) for p in ax]
                affine = affine and all(tuple(o[a] + sum(REF[v][j] * A[j][a] for j in range(c)) for a in range(d)) == P[v] for v in range(NVTX[c]))
                affine = affine and all(sorted(map(abs, v)) == [0] * (d - 1) + [1] for v in A) and len({tuple(map(abs, v)) for v in A}) == c
                if c == d: right = right and det(A) == 1
                inside = inside and all(any(all(p[a] == x for p in P) for x in (1,)) or len({p[a] for p in P}) == 2 for a in range(d))     # no child lies in a side of the parent
                dual = dual and (d - c, i) in key
            e.prove('children of dimension %d: every vertex is a node of the parent' % c, z3.BoolVal(known))
            if not known: continue
            e.prove('children of dimension %d: each is a unit cube of the grid with its vertices in the order of the reference cube' % c, z3.BoolVal(affine))
            e.prove('children of dimension %d: they are inside the parent, pairwise different, and there is no other' % c, z3.BoolVal(inside and len(seen) == want))
            e.prove('children of dimension %d: child i is the one at side i of dimension %d' % (c, d - c), z3.BoolVal(dual))
            if c == d: e.prove('children of dimension %d keep the orientation of the parent' % c, z3.BoolVal(right))
    return f
def det(A):
    n = len(A); s = 0
    for p in itertools.permutations(range(n)):
        t = (-1)**sum(p[i] > p[j] for i in range(n) for j in range(i + 1, n))
        for i in range(n): t *= A[i][p[i]]
        s += t
    return s
for d in (1, 2, 3): TASKS.append(Task('subdivision of a %d-cube' % d, subdivision(d), extra=H, mode='bv'))
# ---- children are the inverse of the parent references
def parents(e, n, pi, cd):
    g = e.cx.new_obj(e.st, 'parents', 32); c = {}
    for b, a in ((0, pi), (16, cd)):
        h = e.st.objs[a.ptr.obj].cells
        for o in (0, 8): c[b + o] = (8, h[o][1], 'p')
    e.st.objs[g.obj] = RecC(c); return g
def filt(e):
    n = e.int('n', 0, N); pd = e.int('parent_dim', 0, 3); pi = e.array('parent', n); cd = e.array('code', n, 1); r = e.sret(); i = e.ivar('i', 0, n)
    e.call('Omega_h::filter_parents', r, parents(e, n, pi, cd), pd); L, rd = e.out(r, 1)
    e.prove('marks the entities whose parent has that dimension', z3.And(L == n, rd(i) == z3.If(cd(i) % 4 == pd, 1, 0)))
T('filter_parents', filt)
def inverse(pd):
    def f(e):
        n = e.int('n', 0, N); np = e.int('nparents', 0, N); pi = e.array('parent', n); cd = e.array('code', n, 1); r = e.sret(48); x = z3.Int('x!')
        e.assume(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < n, cd(x) % 4 == pd), z3.And(0 <= pi(x), pi(x) < np)), patterns=[pi(x)])); e.assume(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < n, cd(x) % 4 == pd), z3.And(0 <= pi(x), pi(x) < np)), patterns=[cd(x)]))
        e.call('Omega_h::invert_parents', r, parents(e, n, pi, cd), pd, np)
        L, off = e.out(r); M, ch = e.out(r, off=16); MC, cc = e.out(r, 1, off=32); c = e.ivar('child', 0, n); p = e.ivar('parent_', 0, np); x = e.ivar('x'); y = e.ivar('y'); e.inst(x); e.inst(y)
        Cm, P, nm, _, mk = e.cx.collected[-1]; OFF, own, IT, POS, _, _, _ = e.cx.inverted[-1]; F, TO = e.cx.sorted_lists[-1]
        e.prove('size', z3.And(L == np + 1, off(IV(0)) == 0, M == off(np), MC == M))
        q = e.int('place'); e.assume(q == TO(POS(P(c)))); e.inst(c)
        e.prove('each child is in the list of its parent', z3.Implies(cd(c) % 4 == pd, z3.And(off(pi(c)) <= q, q < off(pi(c) + 1), ch(q) == c, cc(q) == cd(c))))
        seg = z3.And(off(p) <= x, x < off(p + 1))
        e.prove('each entry of a list is a child of that parent, with its code', z3.Implies(seg, z3.And(0 <= ch(x), ch(x) < n, cd(ch(x)) % 4 == pd, pi(ch(x)) == p, cc(x) == cd(ch(x)))))
        e.prove('lists are in increasing order of the child', z3.Implies(z3.And(seg, x < y, y < off(p + 1)), ch(x) < ch(y)))
    return f
for d in (1, 2, 3): T('invert_parents, parents of dimension %d' % d, inverse(d), 'CM', 'IMA', 'SBHI')

# ---- vertices of the new entities
class AMesh(SymMesh):
    def __init__(s, e, dim, cap, name=''):
        super().__init__(e, 'hypercube', dim, cap, name); s._kids = {}; s._par = {}
    def kids(s, d, c):
        if (d, c) not in s._kids:
            k = s.e.int('%snkids%d_%d' % (s.name, d, c), 0, N); s._kids[(d, c)] = (s.e.fan('%skids%d_%d_off' % (s.name, d, c), s.n[d], k), s.e.array('%skids%d_%d' % (s.name, d, c), k, rng=(0, s.n[c])), s.e.array('%skid_codes%d_%d' % (s.name, d, c), k, 1))
        return s._kids[(d, c)]
    def h_ask_children(s, cx, d, a, st):
        if not (isinstance(a[2], int) and isinstance(a[3], int)): raise Unsupported('ask_children')
        for o, x in zip((0, 16, 32), s.kids(a[2], a[3])): s.ret(a[0], x, st, o)
        return st, None
    def h_ask_graph(s, cx, d, a, st):
        if not (isinstance(a[2], int) and isinstance(a[3], int)) or a[2] < a[3]: raise Unsupported('ask_graph')
        h, l = a[2], a[3]
        if h > l: x, _ = s.down(h, l); s.ret(a[0], None, st); s.ret(a[0], x, st, 16); return st, None
        n = s.n[h]; mkarr(cx, st, a[0], 'idoff%d' % h, cx.addi(n, 1), 4, 'i', (lambda x: cx.zi(x))); mkarr(cx, st, cx.padd(a[0], 16), 'id%d' % h, n, 4, 'i', lambda x: cx.zi(x)); return st, None
def put(e, hf, i, A):
    for w in (0, 8): e.cx.store(e.cx.padd(hf, 16 * i + w), e.cx.load(e.cx.padd(A.ptr, w), ptr_t(), e.st), ptr_t(), e.st)
def nth_kernel(e, func, nth, handles, pick=None):
    """the closure of the nth parallel loop of `func`; the loops before it write nothing the later ones read"""
    cx = e.cx; had = set(e.st.objs); key = 'Omega_h::' + func; box = []; seen = []; old = cx.contracts; started = [False]
    def grab(cx_, nm, a, st, I):
        seen.append(nm)
        if len(seen) == nth + 1: box.append((nm, a, st)); raise Grab()
        return st, None
    cx.contracts = [(R(r'Omega_h::parallel_for<.*' + re.escape(key) + r'\('), grab)] + list(old); cx.ccache.clear()
    try: e.call(key, *handles)
    except Grab: pass
    finally: cx.contracts = old; cx.ccache.clear()
    if not box: raise Unsupported('%s: parallel loop %d' % (func, nth))
    nm, a, st = box[0]; e.st = st; cx.cur_pc = st.pc; cx.depth = 0
    tag = re.search(r"::(\$_\d+|'lambda\d*'\(int\)|\{lambda\(int\)#\d+\})&?>\(", dem(nm)).group(1)
    fns = [x for x in cx.mod.defs if dem(x).startswith(key + '(') and tag + '::operator()(int)' in dem(x)]
    if len(fns) != 1: raise Unsupported('body of loop %d of %s: %d candidates' % (nth, func, len(fns)))
    new = [o for o in e.st.objs if o not in had and cx.meta[o].nbytes is not None and not isinstance(e.st.objs[o], RecC)]
    return cx.mod.function(fns[0]), next(x for x in a if isinstance(x, Ptr)), new, [x for x in a if not isinstance(x, Ptr)]
def refined(dim, c, d):
    def f(e):
        cx = e.cx; M = AMesh(e, dim, CAP); nk = {j: e.int('nmods%d' % j, 0, CAP // 64) for j in range(4)}; nn = e.int('nnew', 0, N)
        m2m = {j: e.array('mods2mds%d' % j, nk[j], rng=(0, M.n[j])) for j in range(dim + 1)}; inv = {j: e.array('mds2mods%d' % j, M.n[j]) for j in range(dim + 1)}; mid = {j: e.array('midverts%d' % j, nk[j], rng=(0, nn)) for j in range(dim + 1)}; o2n = e.array('old2new', M.n[0])
        h1, h2, h3 = few(e, 4), few(e, 4), few(e, 4); x = z3.Int('x!')
        for j in range(dim + 1):
            put(e, h1, j, m2m[j]); put(e, h2, j, inv[j]); put(e, h3, j, mid[j])
            e.assume(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < M.n[j]), z3.And(-1 <= inv[j](x), inv[j](x) < nk[j])), patterns=[inv[j](x)]))
        # sides that are not refined now were refined before and have their midpoint already; a vertex is its own node
        e.assume(z3.ForAll([x], inv[0](x) >= 0, patterns=[inv[0](x)]))
        for j in range(1, dim + 1): off, kd, _ = M.kids(j, 0); e.assume(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < M.n[j], inv[j](x) == -1), off(x + 1) == off(x) + 1), patterns=[inv[j](x)]))
        nvc = NVTX[c]; ndc = lambda j: comb(j, c) * 2**c; r = e.sret(); lows = [j for j in range(c, dim + 1)]
        total = sum((nk[j] * ndc(j) for j in lows), IV(0)); before = sum((nk[j] * ndc(j) for j in lows if j < d), IV(0)); nch = e.int('num_children'); e.assume(nch == total)
        fn, clo, new, rest = nth_kernel(e, 'amr::get_refined_topology', d - c, [r, M.ptr, c, nch, h1, h2, h3, o2n])
        e.prove('the loop runs over the refined entities of dimension %d' % d, z3.And(*[cx.zi(n_) == nk[d] for n_ in rest[:1]]) if rest else z3.BoolVal(False))
        o = sized(e, new, cx.muli(4 * nvc, nch)); k = e.ivar('mod', 0, nk[d]); e.st.objs[o] = ArrC(4, 'i', ABase(e.decl('before', 0))); st0 = fire(e, fn, clo, k); A, A0 = rdo(e, e.st, o), rdo(e, st0, o); z = e.ivar('z', 0); md = m2m[d](k); base = (before + k * ndc(d)) * nvc
        for i in range(ndc(d)):
            for v in range(nvc):
                ld, w = num(e, 'w_sdim', d, c, i, v), num(e, 'w_swhich', d, c, i, v); low = M.down(d, ld)[0](md * M.deg(d, ld) + w) if ld < d else md; g = A(base + i * nvc + v)
                want = mid[ld](inv[ld](low))
                if ld: off, kd, _ = M.kids(ld, 0); want = z3.If(inv[ld](low) == -1, o2n(kd(off(low))), want)
                e.prove('child %d: vertex %d is the middle of side %d of dimension %d' % (i, v, w, ld), g == want)
        e.prove('entries of other entities are untouched', z3.Implies(z3.Or(z < base, z >= base + ndc(d) * nvc), A(z) == A0(z)))
    return f
for dim in (1, 2, 3):
    for c in range(1, dim + 1):
        for d in range(c, dim + 1): T('get_refined_topology: mesh of dimension %d, children of dimension %d in one entity of dimension %d' % (dim, c, d), refined(dim, c, d), 'SCAN', extra=H)
def halves(x):
    """the two 32-bit numbers in a register"""
    if isinstance(x, int): return [(0, wrap(x & 0xffffffff)), (4, wrap((x >> 32) & 0xffffffff))]
    return [(o, v) for o, _, v, _ in x.parts]
def wrap(x): return x - 2**32 if x >= 2**31 else x
def counted(dim):
    def f(e):
        cx = e.cx; M = AMesh(e, dim, CAP); S = {}
        def get_sum(cx, nm, a, st, Ins):
            """number of marks in a 0/1 array (P03)"""
            o = cx.load(cx.padd(a[0], 8), ptr_t(), st).obj
            if o not in S: S[o] = e.int('sum%d' % len(S), 0, CAP)
            return st, S[o]
        cx.contracts = [(R(r'^(.*::type |int )?Omega_h::get_sum<[^()]*>\(Omega_h::Read<signed char>\)$'), get_sum)] + list(cx.contracts); cx.ccache.clear(); 
        r = e.call('Omega_h::amr::count_refined', M.ptr); r = {8 * i + o: v for i, x in enumerate(r.v) for o, v in halves(x)}; at = lambda d: S.get(cx.load(cx.padd(M.tag(d, 'refine', 1).ptr, 8), ptr_t(), e.st).obj, IV(0))
        for c in range(dim + 1): e.prove('children of dimension %d: as many as the subdivisions of the refined entities have' % c, cx.zi(r[4 * c]) == sum(at(d) * (comb(d, c) * 2**c) for d in range(max(c, 1), dim + 1)))
    return f
for dim in (1, 2, 3): T('count_refined: mesh of dimension %d' % dim, counted(dim))
# ---- parents of the new entities
def h_ask_parents(s, cx, d, a, st):
    if not isinstance(a[2], int): raise Unsupported('ask_parents')
    k = a[2]
    if k not in s._par: s._par[k] = (s.e.array(s.name + 'parent%d' % k, s.n[k]), s.e.array(s.name + 'pcode%d' % k, s.n[k], 1, rng=(0, 128)))
    for o, x in zip((0, 16), s._par[k]): s.ret(a[0], x, st, o)
    return st, None
def h_set_parents(s, cx, d, a, st):
    s.given = getattr(s, 'given', []) + [(a[1], [cx.load(cx.padd(a[2], o), ptr_t(), st) for o in (8, 24)], st)]; return st, None
AMesh.h_ask_parents = h_ask_parents; AMesh.h_set_parents = h_set_parents
def setting(e, dim):
    O, W = AMesh(e, dim, CAP // 8, 'old_'), AMesh(e, dim, CAP, 'new_'); R_ = range(dim + 1); nk = {j: e.int('nmods%d' % j, 0, CAP // 64) for j in R_}; ns = {j: e.int('nsame%d' % j, 0, CAP) for j in R_}; x = z3.Int('x!')
    tot = {c: sum((nk[d] * (comb(d, c) * 2**c) for d in range(max(1, c), dim + 1)), IV(0)) for c in R_}; np = {c: e.int('nprods%d' % c, 0, CAP) for c in R_}
    for c in R_: e.assume(np[c] == tot[c])
    m2m = {j: e.array('mods2mds%d' % j, nk[j], rng=(0, O.n[j])) for j in R_}; p2n = {j: e.injective('prods2new%d' % j, np[j], W.n[j]) for j in R_}; s2o = {j: e.array('same2old%d' % j, ns[j], rng=(0, O.n[j])) for j in R_}; s2n = {j: e.injective('same2new%d' % j, ns[j], W.n[j]) for j in R_}; o2n = {j: e.array('old2new%d' % j, O.n[j], rng=(0, W.n[j])) for j in R_}
    fs = []
    for g in (m2m, p2n, s2o, s2n, o2n):
        h = few(e, 4); fs.append(h)
        for j in R_: put(e, h, j, g[j])
    return O, W, nk, ns, np, m2m, p2n, s2o, s2n, o2n, [O.ptr, W.ptr] + fs
def nloops(dim, c): return 1 + dim - max(1, c) + 1      # the one over unchanged entities and one per dimension of refined ones
def kept(dim, c, pd):
    def f(e):
        cx = e.cx; O, W, nk, ns, np, m2m, p2n, s2o, s2n, o2n, args = setting(e, dim); fn, clo, new, rest = nth_kernel(e, 'amr::transfer_parents', sum(nloops(dim, j) for j in range(c)), args)
        k = e.ivar('s', 0, ns[c]); P, Q = O._par[c]; q = s2o[c](k); w = e.int('which', 0, 31); oo = e.st.objs[Q.ptr.obj].cells[8][1].obj
        # the code of this entity names a parent of dimension pd
        e.assume(z3.And(Q(q) == 4 * w + pd, z3.Implies(P(q) >= 0, P(q) < O.n[pd]))); a = sized(e, new, cx.muli(4, ns[c])); b = sized(e, new, ns[c])
        A0, C0 = rdo(e, e.st, a), rdo(e, e.st, b, 1); e.prove('starts with the old parent and the old code', z3.And(A0(k) == P(q), C0(k) == Q(q)))
        e.st.objs[b] = ArrC(1, 'i', AFun(lambda x: cx.ite(cx.eqi(x, k), cx.addi(cx.muli(4, w), pd), C0(x)))); cx.low_bits = getattr(cx, 'low_bits', {})
        st0 = fire(e, fn, clo, k); A = rdo(e, e.st, a); z = e.ivar('z', 0)
        e.prove('an unchanged entity keeps its parent, under the new number of the parent', A(k) == z3.If(P(q) < 0, P(q), o2n[pd](P(q)))); e.prove('other entities are untouched', z3.Implies(z != k, A(z) == A0(z)))
    return f
def made(dim, c, d):
    def f(e):
        cx = e.cx; O, W, nk, ns, np, m2m, p2n, s2o, s2n, o2n, args = setting(e, dim); fn, clo, new, rest = nth_kernel(e, 'amr::transfer_parents', sum(nloops(dim, j) for j in range(c)) + 1 + d - max(1, c), args)
        e.prove('the loop runs over the refined entities of dimension %d' % d, z3.And(*[cx.zi(n_) == nk[d] for n_ in rest[:1]]) if rest else z3.BoolVal(False))
        a, b = last_sized(e, new, cx.muli(4, W.n[c])), last_sized(e, new, W.n[c]); k = e.ivar('mod', 0, nk[d]); st0 = fire(e, fn, clo, k); A, B, A0, B0 = rdo(e, e.st, a), rdo(e, e.st, b, 1), rdo(e, st0, a), rdo(e, st0, b, 1)
        n = comb(d, c) * 2**c; base = sum((nk[j] * (comb(j, c) * 2**c) for j in range(max(1, c), d)), IV(0)) + k * n; z = e.ivar('z', 0); par = o2n[d](m2m[d](k))
        for i in range(n): e.prove('child %d: its parent and its place in the parent' % i, z3.And(A(p2n[c](base + i)) == par, B(p2n[c](base + i)) == 4 * i + d))
        e.prove('other entities are untouched', z3.Implies(z3.And(*[z != p2n[c](base + i) for i in range(n)]), z3.And(A(z) == A0(z), B(z) == B0(z))))
    return f
def last_sized(e, new, nb):
    o = [x for x in new if e.cx.veq(e.cx.meta[x].nbytes, nb)]
    if not o: raise Unsupported('array of the given size')
    return o[-1]
def moved(dim):
    def f(e):
        cx = e.cx; O, W, nk, ns, np, m2m, p2n, s2o, s2n, o2n, args = setting(e, dim)
        cx.contracts = [(R(r'Omega_h::parallel_for<.*amr::transfer_parents'), noop)] + list(cx.contracts); cx.ccache.clear(); e.call('Omega_h::amr::transfer_parents', *args); e.prove('parents are given to every dimension', z3.BoolVal([g[0] for g in W.given] == list(range(dim + 1)))); k = e.ivar('s', 0)
        for c, (h1, h2), _ in W.given:
            A, B = rdo(e, e.st, h1.obj), rdo(e, e.st, h2.obj, 1); P, Q = O._par[c]; n = [e.cx.meta[h.obj].nbytes for h in (h1, h2)]
            e.prove('dimension %d: one parent and one code per new entity' % c, z3.And(cx.zi(n[0]) == 4 * W.n[c], cx.zi(n[1]) == W.n[c]))
            e.prove('dimension %d: an unchanged entity gets what the loop over unchanged entities left for it' % c, z3.Implies(k < ns[c], z3.And(A(s2n[c](k)) == P(s2o[c](k)), B(s2n[c](k)) == Q(s2o[c](k)))))
    return f
def noop(cx, nm, a, st, Ins): return st, None
for dim in (1, 2, 3):
    T('transfer_parents: results, mesh of dimension %d' % dim, moved(dim))
    for c in range(dim + 1):
        for pd in range(max(c, 1), dim + 1): T('transfer_parents: unchanged entities of dimension %d with a parent of dimension %d, mesh of dimension %d' % (c, pd, dim), kept(dim, c, pd)); T('transfer_parents: children of dimension %d in entities of dimension %d, mesh of dimension %d' % (c, pd, dim), made(dim, c, pd))
PROP = Prop('P24', TASKS, native=[Native("amr_num")], assumptions=["one rank", "the mesh satisfies the adjacency relations of P04"])
