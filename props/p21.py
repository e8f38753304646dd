from prop import *
from native import Native
import z3
from meshc import *
from p02 import C, IV
from p22 import gptr, graph, gout
from p04 import adjptr, lemma
U = ('mark', 'adj', 'align', 'graph', 'map', 'int_scan', 'array_ops', 'array', 'shared_alloc')
N = 2**31 - 2
TASKS = []
KINDS = [('simplex', 1), ('simplex', 2), ('simplex', 3), ('hypercube', 2), ('hypercube', 3)]
def T(name, f, *c, **kw): TASKS.append(Task(name, f, U, contracts=lambda: MESH + [x for n in c for x in globals()[n]], **kw))
def exposed(fam, dim):
    def f(e):
        M = SymMesh(e, fam, dim); r = e.sret(); off = M.up(dim - 1, dim)[0]
        e.call('Omega_h::mark_exposed_sides', r, M.ptr)
        L, rd = e.out(r, 1); s = e.ivar('s', 0, M.n[dim - 1]); e.prove('size', L == M.n[dim - 1])
        e.prove('exposed exactly with fewer than two elements', rd(s) == z3.If(off(s + 1) - off(s) < 2, IV(1), IV(0)))
    return f
for k in KINDS: T('mark_exposed_sides %s %d' % k, exposed(*k))
def some(e, F, ln, m, got, what):
    """got tells whether one of m(0)..m(ln-1) is not 0; F the running value of the loop"""
    i = e.ivar('i', 0)
    e.induct('marks stay', ln, lambda t: z3.And(z3.Implies(z3.And(i < t, m(i) != 0), F(t) == 1), z3.Or(F(t) == 0, F(t) == 1)))
    w = e.ghost('witness', ln, IV(-1), lambda t, g: z3.If(m(t) != 0, t, g))
    e.induct('marked by a witness', ln, lambda t: z3.Implies(F(t) == 1, z3.And(0 <= w(t), w(t) < t, m(w(t)) != 0)))
    e.prove('marked if some %s is' % what, z3.Implies(z3.And(i < ln, m(i) != 0), got == 1))
    e.prove('marked only if some %s is' % what, z3.And(z3.Or(got == 0, got == 1), z3.Implies(got == 1, z3.And(0 <= w(ln), w(ln) < ln, m(w(ln)) != 0))))
    return w
def down_graph(e):
    n = e.int('n', 0, N); m = e.int('m', 0, N); G, off, ed, k = graph(e, 'g', n, m); h = e.array('high_marked', m, 1); r = e.sret()
    e.call('Omega_h::mark_down', r, G, h, params='Omega_h::Graph')
    L, rd = e.out(r, 1); l = e.ivar('l', 0, n); e.inst(l); e.prove('size', L == n)
    s = e.int('s'); ln = e.int('len', 0); e.assume(z3.And(s == off(l), ln == off(l + 1) - off(l)))
    some(e, e.foldG(-1, l), ln, lambda t: h(ed(s + t)), rd(l), 'adjacent entity')
T('mark_down over a graph', down_graph)
def below(e, M, hd, ld, rd, l, hit):
    """rd(l) tells whether an entity of dimension hd with hit lies above l"""
    off, up, cd = M.up(ld, hd); dn, _ = M.down(hd, ld); m = M.deg(hd, ld); W = e.cx.marked_down[1]
    x = e.ivar('x', 0, M.n[hd]); j = e.ivar('j', 0, m); p = e.int('p'); e.assume(p == off.at(x * m + j)); lemma(e, 'place of the use', z3.Implies(dn(x * m + j) == l, z3.And(off(l) <= p, p < off(l + 1), up(p) == x)))
    e.prove('every entity below a marked one is marked', z3.Implies(z3.And(hit(x), dn(x * m + j) == l), rd(l) == 1))
    q = e.int('q'); e.assume(q == W(l)); e.prove('only entities below a marked one are marked', z3.And(z3.Or(rd(l) == 0, rd(l) == 1), z3.Implies(rd(l) == 1, z3.And(hit(up(q)), 0 <= up(q), up(q) < M.n[hd], 0 <= off.which(q), off.which(q) < m, dn(off.use(q)) == l, off.use(q) == up(q) * m + off.which(q)))))
def down_mesh(fam, dim, hd, ld, fn='mark_down'):
    def f(e):
        M = SymMesh(e, fam, dim); h = e.array('high_marked', M.n[hd], 1); r = e.sret(); e.call('Omega_h::' + fn, r, M.ptr, hd, ld, h, params='Omega_h::Mesh')
        L, rd = e.out(r, 1); l = e.ivar('l', 0, M.n[ld]); e.prove('size', L == M.n[ld])
        below(e, M, hd, ld, rd, l, lambda x: h(x) != 0)
    return f
for fam, dim in KINDS:
    for hd in range(1, dim + 1):
        for ld in range(hd): T('mark_down %s %d: %d to %d' % (fam, dim, hd, ld), down_mesh(fam, dim, hd, ld), 'MD'); T('mark_adj %s %d: %d to %d' % (fam, dim, hd, ld), down_mesh(fam, dim, hd, ld, 'mark_adj'), 'MD')
def up_mesh(fam, dim, hd, ld, fn, args):
    def f(e):
        M = SymMesh(e, fam, dim); m = M.deg(hd, ld); lo = e.array('low_marked', M.n[ld], 1); r = e.sret(); dn = M.down(hd, ld)[0]; e.call('Omega_h::' + fn, r, M.ptr, *args(ld, hd), lo)
        L, rd = e.out(r, 1); h = e.ivar('h', 0, M.n[hd]); e.inst(h); e.prove('size', L == M.n[hd])
        ms = [lo(dn(h * m + j)) != 0 for j in range(m)]
        e.prove('marked exactly if %s entity below it is' % ('every' if fn.endswith('all') else 'some'), rd(h) == z3.If((z3.And if fn.endswith('all') else z3.Or)(*ms), IV(1), IV(0)))
    return f
for fam, dim in KINDS:
    for hd in range(1, dim + 1):
        for ld in range(hd):
            for fn in ('mark_up', 'mark_up_all', 'mark_adj'): T('%s %s %d: %d to %d' % (fn, fam, dim, ld, hd), up_mesh(fam, dim, hd, ld, fn, lambda l, h: (l, h)))
def same_dim(e):
    M = SymMesh(e, 'simplex', 3); a = e.array('marks', M.n[2], 1)
    for fn in ('mark_adj', 'mark_down'):
        r = e.sret(); h = e.cx.new_obj(e.st, 'arg', 16); e.st.objs[h.obj] = RecC(dict(e.st.objs[a.ptr.obj].cells)); e.call('Omega_h::' + fn, r, M.ptr, 2, 2, h, params='Omega_h::Mesh'); L, rd = e.out(r, 1); i = e.ivar('i', 0, M.n[2]); e.prove(fn + ': marks of the same dimension are unchanged', z3.And(L == M.n[2], rd(i) == a(i)))
T('mark_adj and mark_down within one dimension', same_dim)
def by_class(d):
    def f(e):
        M = SymMesh(e, 'simplex', 3); r = e.sret(); cd = e.int('class_dim', 0, 3); ci = e.int('class_id', -2**31, 2**31 - 1); t = M.tag(d, 'class_dim', 1); u = M.tag(d, 'class_id', 4); i = e.ivar('i', 0, M.n[d])
        e.call('Omega_h::mark_by_class_dim', r, M.ptr, d, cd); L, rd = e.out(r, 1); e.prove('by dimension', z3.And(L == M.n[d], rd(i) == z3.If(t(i) == cd, IV(1), IV(0))))
        r = e.sret(); e.call('Omega_h::mark_by_class', r, M.ptr, d, cd, ci); L, rd = e.out(r, 1); e.prove('by dimension and number', z3.And(L == M.n[d], rd(i) == z3.If(z3.And(t(i) == cd, u(i) == ci), IV(1), IV(0))))
    return f
for d in range(4): T('mark_by_class_dim and mark_by_class, dimension %d' % d, by_class(d))
def closure1(d, c):
    def f(e):
        M = SymMesh(e, 'simplex', 3); r = e.sret(); ci = e.int('class_id', -2**31, 2**31 - 1); t = M.tag(c, 'class_dim', 1); u = M.tag(c, 'class_id', 4)
        e.call('Omega_h::mark_class_closure', r, M.ptr, d, c, ci); L, rd = e.out(r, 1); l = e.ivar('l', 0, M.n[d]); e.prove('size', L == M.n[d]); e.inst(l)
        hit = lambda x: z3.And(t(x) == c, u(x) == ci)
        if d == c: e.prove('the entities of the class', rd(l) == z3.If(hit(l), IV(1), IV(0))); return
        below(e, M, c, d, rd, l, hit)
    return f
for c in range(4):
    for d in range(c + 1): T('mark_class_closure, dimension %d of class dimension %d' % (d, c), closure1(d, c), 'MD')
PROP = Prop('P21', TASKS, native=[], assumptions=['one rank'])
# ---- sets of class numbers: std::vector and std::sort
def vec_copy(cx, nm, a, st, Ins):
    """copy of a std::vector<int> (trusted): a new array with the same content"""
    b = cx.load(a[1], ptr_t(), st); en = cx.load(cx.padd(a[1], 8), ptr_t(), st); c = st.objs[b.obj]; n = cx.meta[b.obj].nbytes
    arr = cx.new_obj(st, 'vector.copy', n, arr=True, heap=True, content=c)
    cx.store(a[0], arr, ptr_t(), st); cx.store(cx.padd(a[0], 8), Ptr(arr.obj, en.c, en.lin), ptr_t(), st); cx.store(cx.padd(a[0], 16), Ptr(arr.obj, en.c, en.lin), ptr_t(), st); return st, None
def std_sort(cx, nm, a, st, Ins):
    """std::sort over a whole array (trusted): a rearrangement in non-decreasing order"""
    top(cx, nm); b, en = a[0], a[1]
    n = cx.divexact(cx.meta[b.obj].nbytes, 4); c = cx.typed(b.obj, st.objs[b.obj], int_t(32), st); old = c.c
    cx.oblige('std::sort: the range is the whole array', band(cx.eqi(cx.elem_index(b, 4), 0), cx.eqi(cx.elem_index(en, 4), n)), 'pre', st.pc)
    S, P, Q = fnew(cx, 'sorted', I, I), fnew(cx, 'sorted_from', I, I), fnew(cx, 'sorted_to', I, I); lo_rng(cx, S); x, y = z3.Int('x!'), z3.Int('y!'); n = cx.zi(n); rd = lambda i: cx.zi(old.read(i, cx))
    cx.fact(z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x <= y, y < n), S(x) <= S(y)), patterns=[z3.MultiPattern(S(x), S(y))]), guard=False)
    cx.fact(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < n), z3.And(0 <= P(x), P(x) < n, S(x) == rd(P(x)), Q(P(x)) == x)), patterns=[S(x)]), guard=False)
    cx.fact(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < n), z3.And(0 <= Q(x), Q(x) < n, P(Q(x)) == x, S(Q(x)) == rd(x))), patterns=[Q(x)]), guard=False)
    cx.vsorted = (S, P, Q); st.objs[b.obj] = ArrC(4, 'i', ABase(S)); return st, None
VEC = [(R(r'^std::vector<int, .*>::vector\(std::vector<int, .*> const&\)'), vec_copy), (R(r'^void std::sort<'), std_sort), (R(r'^std::vector<int, .*>::~vector'), noop)]
class BSearch:
    def __init__(s, a, v, n): s.a = a; s.v = v; s.n = n
    def enter(s, cx, L):
        if L is L.entry:
            s.l, s.r = [next(i for i, p in enumerate(L.phi) if cx.veq(p, t)) for t in (0, cx.subi(s.n, 1))]
    def inv(s, cx, L):
        y = z3.Int('y!'); l, r = cx.zi(L.phi[s.l]), cx.zi(L.phi[s.r])
        return [('range', z3.And(0 <= l, l <= r + 1, r < s.n)), ('below are smaller', z3.ForAll([y], z3.Implies(z3.And(0 <= y, y < l), s.a(y) < s.v), patterns=[s.a(y)])), ('above are larger', z3.ForAll([y], z3.Implies(z3.And(r < y, y < s.n), s.a(y) > s.v), patterns=[s.a(y)]))]
    def variant(s, L): return L.phi[s.r] - L.phi[s.l] + 1
def vector(e, name, n):
    cx = e.cx; h = e.array(name, n); arr = e.st.objs[h.ptr.obj].cells[8][1]; v = cx.new_obj(e.st, name + '.vec', 24); en = cx.padd(arr, 0, [(4, n)])
    e.st.objs[v.obj] = RecC({0: (8, arr, 'p'), 8: (8, en, 'p'), 16: (8, en, 'p')}); return v, h
def eq_marks(cd):
    def f(e):
        from p04 import kernel, fire, sized, rdo
        M = SymMesh(e, 'simplex', 3); n = e.int('n', 0, 2**30); v, ids = vector(e, 'ids', n); r = e.sret(); t = M.tag(cd, 'class_dim', 1); u = M.tag(cd, 'class_id', 4); i = e.ivar('i', 0, M.n[cd])
        fn, clo, new = kernel(e, 'Omega_h::get_eq_marks', [r, M.ptr, cd, v], i); S, P, Q = e.cx.vsorted
        o = sized(e, new, M.n[cd]); rdo(e, e.st, o, 1)
        srt = [x for x in new if e.cx.veq(e.cx.meta[x].nbytes, e.cx.muli(4, n))]
        a = rdo(e, e.st, srt[-1]); y = e.ivar('y', 0, n); lemma(e, 'the array searched is the sorted one', a(y) == S(y)); z = z3.Int('x!'); e.assume(z3.ForAll([z], z3.Implies(z3.And(0 <= z, z < n), a(z) == S(z)), patterns=[S(z)]))
        e.cx.invariants = [('binary_search', 0, BSearch(S, u(i), n))]
        st0 = fire(e, fn, clo, i); R0, R1 = rdo(e, st0, o, 1), rdo(e, e.st, o, 1)
        k = e.ivar('k', 0, n); w = e.decl('hit', n)
        e.prove('the value is 0 or 1', z3.Or(R1(i) == 0, R1(i) == 1))
        j = e.int('j'); e.assume(j == Q(k)); e.prove('marked if it lies in one of the classes', z3.Implies(z3.And(t(i) == cd, u(i) == ids(k), S(j) == S(j)), R1(i) == 1))
        # a marked entity: the place where the search stopped names one of the given classes
        wi = e.int('wi'); e.assume(z3.Implies(z3.Exists([z], z3.And(0 <= z, z < n, ids(z) == u(i))), z3.And(0 <= wi, wi < n, ids(wi) == u(i))))
        e.prove('marked only if it lies in one of the classes', z3.Implies(R1(i) == 1, z3.And(t(i) == cd, 0 <= wi, wi < n, ids(wi) == u(i))))
        x = e.ivar('x'); e.prove('other entities are untouched', z3.Implies(x != i, R1(x) == R0(x)))
    return f
for c in range(4): T('get_eq_marks, class dimension %d: one entity' % c, eq_marks(c), 'VEC')
PROP = Prop('P21', TASKS, native=[Native('mark')], assumptions=['one rank'])
