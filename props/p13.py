from prop import *
from native import Native
import z3
from meshc import *
from p02 import C, IV
from p22 import gptr, graph
from p04 import lemma, kernel, fire, sized, rdo
U = ('indset', 'graph', 'map', 'int_scan', 'array_ops', 'array', 'shared_alloc')
N = 2**31 - 2
NOT_IN, IN, UNKNOWN = 0, 1, 2
TASKS = []
def T(name, f, *c, **kw): TASKS.append(Task(name, f, U, contracts=lambda: MESH + [x for n in c for x in globals()[n]], **kw))
I_ = z3.IntSort(); FIND = R(r'^(Omega_h::Read<signed char> )?Omega_h::indset::find<')
def less(q, g, u, v): return z3.Or(q(u) < q(v), z3.And(q(u) == q(v), g(u) < g(v)))
def compare(e, q, g):
    c = e.cx.new_obj(e.st, 'compare', 32); cells = {}
    for b, a in ((0, q), (16, g)):
        for o in (0, 8): cells[b + o] = (8, e.st.objs[a.ptr.obj].cells[o][1], 'p')
    e.st.objs[c.obj] = RecC(cells); return c
def comparing(e):
    n = e.int('n', 0, N); q = e.array('quality', n, 8, 'f'); g = e.array('global', n, 8); u, v = e.ivar('u', 0, n), e.ivar('v', 0, n)
    fn = [x for x in e.cx.mod.defs if dem(x).startswith('Omega_h::QualityCompare::operator()(')]
    r = e.cx.run_body(e.cx.mod.function(fn[0]), [compare(e, q, g), u, v], e.st); e.st = r[0]; e.cx.cur_pc = e.st.pc; b = r[1]; b = Z(b) if isinstance(b, bool) or z3.is_bool(b) else e.cx.zi(b) != 0
    e.prove('lower quality comes first, equal quality by global number', b == less(q, g, u, v))
T('QualityCompare', comparing)
class Scan:
    """walks the neighbours of one node; seen(y) holds for each one passed"""
    def __init__(s, lo, hi, seen): s.lo = lo; s.hi = hi; s.seen = seen
    def inv(s, cx, L):
        if len(L.phi) != 1: raise Unsupported('local_iteration: more than one value carried by a loop')
        j = cx.zi(L.phi[0]); y = z3.Int('y!'); b = s.seen(y)
        return [('range', z3.And(s.lo <= j, j <= s.hi)), ('neighbours passed so far', z3.ForAll([y], z3.Implies(z3.And(s.lo <= y, y < j), b[0]), patterns=[b[1]]))]
    def variant(s, L): return s.hi - L.phi[0]
def gr(e, n):
    m = e.int('m', 0, N); off = e.fan('xadj', n, m); adj = e.array('adj', m, rng=(0, n)); return m, off, adj
def step(e):
    n = e.int('n', 0, N); m, off, adj = gr(e, n); S = e.array('state', n, 1, rng=(0, 3)); q = e.array('quality', n, 8, 'f'); g = e.array('global', n, 8); r = e.sret(); v = e.ivar('v', 0, n); e.inst(v)
    lo, hi = off(v), off(v + 1); no_in = lambda y: (S(adj(y)) != IN, adj(y)); lower = lambda y: (z3.Or(S(adj(y)) == NOT_IN, less(q, g, adj(y), v)), adj(y))
    fn, clo, new = kernel(e, 'Omega_h::indset::local_iteration<Omega_h::QualityCompare>', [r, off.ptr, adj, S, compare(e, q, g)], v)
    e.cx.invariants = [('local_iteration', 0, Scan(lo, hi, no_in)), ('local_iteration', 1, Scan(lo, hi, lower))]
    o = sized(e, new, n); A0 = rdo(e, e.st, o, 1); x = e.ivar('x', 0, n); e.prove('starts from a copy of the state', A0(x) == S(x))
    st0 = fire(e, fn, clo, v); A, A0 = rdo(e, e.st, o, 1), rdo(e, st0, o, 1); y = e.ivar('y'); seg = z3.And(lo <= y, y < hi)
    e.prove('decided nodes keep their state', z3.Implies(S(v) != UNKNOWN, A(v) == S(v)))
    e.prove('a node next to a chosen one is rejected', z3.Implies(z3.And(S(v) == UNKNOWN, seg, S(adj(y)) == IN), A(v) == NOT_IN))
    e.prove('a node is chosen only if every neighbour left is lower', z3.Implies(z3.And(S(v) == UNKNOWN, A(v) == IN, seg), z3.And(S(adj(y)) != IN, z3.Or(S(adj(y)) == NOT_IN, less(q, g, adj(y), v)))))
    w = e.int('w'); sk = z3.Int('z!'); e.assume(z3.Implies(z3.Exists([sk], z3.And(lo <= sk, sk < hi, S(adj(sk)) == IN)), z3.And(lo <= w, w < hi, S(adj(w)) == IN)))
    e.prove('a node is rejected only next to a chosen one', z3.Implies(z3.And(S(v) == UNKNOWN, A(v) == NOT_IN), z3.And(lo <= w, w < hi, S(adj(w)) == IN)))
    u = e.int('u'); e.assume(z3.Implies(z3.Exists([sk], z3.And(lo <= sk, sk < hi, S(adj(sk)) != NOT_IN, z3.Not(less(q, g, adj(sk), v)))), z3.And(lo <= u, u < hi, S(adj(u)) != NOT_IN, z3.Not(less(q, g, adj(u), v)))))
    e.prove('a node stays open only if some neighbour left is not lower', z3.Implies(z3.And(S(v) == UNKNOWN, A(v) != NOT_IN, A(v) != IN), z3.And(A(v) == UNKNOWN, lo <= u, u < hi, S(adj(u)) != NOT_IN, z3.Not(less(q, g, adj(u), v)))))
    e.prove('other nodes are untouched', z3.Implies(x != v, A(x) == A0(x)))
T('local_iteration: one node', step)
def local_h(cx, nm, a, st, Ins):
    """task 'local_iteration: one node' """
    top(cx, nm); n1, off = rdh(cx, st, a[1]); m, adj = rdh(cx, st, a[2]); n, S = rdh(cx, st, a[3], 1); n2, q = rdh(cx, st, a[4], 8, 'f'); n3, g = rdh(cx, st, cx.padd(a[4], 16), 8); n = cx.zi(n); k = cx.fresh('k', I_); m = cx.zi(m)
    cx.oblige('local_iteration: sizes', z3.And(cx.zi(n1) == n + 1, cx.zi(n2) == n, cx.zi(n3) == n), 'pre', st.pc)
    cx.oblige('local_iteration: neighbours are nodes', z3.Implies(z3.And(0 <= k, k < m), z3.And(0 <= adj(k), adj(k) < n)), 'pre', st.pc)
    cx.oblige('local_iteration: offsets', z3.Implies(z3.And(0 <= k, k < n), z3.And(0 <= off(k), off(k) <= off(k + 1), off(k + 1) <= m)), 'pre', st.pc)
    cx.oblige('local_iteration: states', z3.Implies(z3.And(0 <= k, k < n), z3.And(0 <= S(k), S(k) <= 2)), 'pre', st.pc)
    A, W, H = [fnew(cx, nm_, I_, I_) for nm_ in ('new_state', 'rejected_by', 'beaten_by')]; x, y = z3.Int('x!'), z3.Int('y!'); seg = lambda x, y: z3.And(off(x) <= y, y < off(x + 1)); rng = z3.And(0 <= x, x < n); op = S(x) == UNKNOWN; cx.decl_rng[A.name()] = (0, 2)
    F = lambda b, *p: cx.fact(z3.ForAll([x] + ([y] if len(p) > 1 else []), b, patterns=[z3.MultiPattern(*p) if len(p) > 1 else p[0]]), guard=False)
    F(z3.Implies(rng, z3.And(0 <= A(x), A(x) <= 2, z3.Implies(z3.Not(op), A(x) == S(x)))), A(x))
    F(z3.Implies(z3.And(rng, op, seg(x, y)), z3.And(z3.Implies(S(adj(y)) == IN, A(x) == NOT_IN), z3.Implies(A(x) == IN, z3.And(S(adj(y)) != IN, z3.Or(S(adj(y)) == NOT_IN, less(q, g, adj(y), x)))))), A(x), adj(y))
    F(z3.Implies(z3.And(rng, op, A(x) == NOT_IN), z3.And(seg(x, W(x)), S(adj(W(x))) == IN)), A(x))
    F(z3.Implies(z3.And(rng, op, A(x) == UNKNOWN), z3.And(seg(x, H(x)), S(adj(H(x))) != NOT_IN, z3.Not(less(q, g, adj(H(x)), x)))), A(x))
    cx.steps_ = (A, W, H, S); mkarr(cx, st, a[0], 'new_state', n, 1, 'i', A); return st, None
def max_h(cx, nm, a, st, Ins):
    """get_max over the ranks (P03; one rank: the maximum of the array)"""
    n, S = rdh(cx, st, a[1], 1); n = cx.zi(n); r = cx.fresh('max', I_); w = cx.fresh('where', I_); x = z3.Int('x!'); cx.set_rng(r, (-128, 127))
    f = z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < n), S(x) <= r), patterns=[S(x)])
    cx.fact(f, guard=True, pc=st.pc); cx.fact(z3.If(n > 0, z3.And(0 <= w, w < n, S(w) == r), r == -128), guard=True, pc=st.pc); cx.maxes = getattr(cx, 'maxes', []) + [(r, w, S)]
    return st, r
def comm_h(cx, nm, a, st, Ins):
    for o in (0, 8): cx.store(cx.padd(a[0], o), NULL, ptr_t(), st)
    return st, None
LOCAL = [(R(r'Omega_h::indset::local_iteration<'), local_h), (R(r'Omega_h::get_max<signed char>\(std::shared_ptr'), max_h), (R(r'^std::(__)?shared_ptr<Omega_h::Comm.*>::(~)?(__)?shared_ptr'), comm_h)]
class Rounds:
    """the rounds of find: independence and maximality of what is decided so far"""
    def __init__(s, e, n, m, off, adj, cand, q, g, sym): s.__dict__.update(e=e, n=n, m=m, off=off, adj=adj, cand=cand, q=q, g=g, sym=sym); s.h = None
    def havoc(s, cx, st, cells):
        at = [c for c in cells if (c[0], c[1] + 8) in cells]
        if len(at) != 1: raise Unsupported('find: %d handles are replaced by the loop' % len(at))
        o, b = at[0]; s.h = Ptr(o, b); A = fnew(cx, 'state', I_, I_); cx.decl_rng[A.name()] = (-128, 127); mkarr(cx, st, s.h, 'state', s.n, 1, 'i', A)
    def state(s, cx, L): return rdh(cx, L.st, s.h, 1)
    def enter(s, cx, L): pass
    @property
    def ghosts(s):
        def step(L, Lb):
            A, W, H, S = s.e.cx.steps_; return lambda i: z3.If(z3.And(S(i) == UNKNOWN, A(i) == NOT_IN), W(i), L.ghost['by'](i))
        return {'by': (lambda i: IV(-1), step)}
    def inv(s, cx, L):
        ln, S = s.state(cx, L); x, y = z3.Int('x!'), z3.Int('y!'); rng = z3.And(0 <= x, x < s.n); seg = lambda x, y: z3.And(s.off(x) <= y, y < s.off(x + 1)); by = L.ghost['by'](x)
        return [('one state per node', cx.zi(ln) == s.n), ('states', z3.ForAll([x], z3.Implies(rng, z3.And(0 <= S(x), S(x) <= 2, z3.Implies(s.cand(x) == 0, S(x) == NOT_IN))), patterns=[S(x)])),
            ('chosen nodes are not adjacent', z3.ForAll([y], z3.Implies(z3.And(0 <= y, y < s.m), z3.Not(z3.And(S(s.adj(y)) == IN, S(s.off.own(y)) == IN))), patterns=[s.adj(y)])),
            ('every rejected candidate has a chosen neighbour', z3.ForAll([x], z3.Implies(z3.And(rng, s.cand(x) != 0, S(x) == NOT_IN), z3.And(seg(x, by), S(s.adj(by)) == IN)), patterns=[S(x)]))]
    def steps(s, cx, L, Lb):
        """every round decides some node: the highest one left; so the number of undecided nodes goes down"""
        A, W, H, S = cx.steps_; n, q, g, e = s.n, s.q, s.g, s.e; t = e.int('t'); rng = z3.And(0 <= t, t < n)
        M = e.ghost('highest', n, IV(-1), lambda k, c: z3.If(z3.And(S(k) == UNKNOWN, z3.Or(c < 0, less(q, g, c, k))), k, c)); p, u, w = e.int('p'), e.int('u'), e.int('w'); cx.fact(z3.And(p == M(n), u == s.adj(H(p)), w == cx.maxes[-1][1]), guard=False)
        def P(k): return z3.And(-1 <= M(k), M(k) < n, z3.Implies(M(k) >= 0, z3.And(M(k) < k, S(M(k)) == UNKNOWN)), *[z3.Implies(z3.And(0 <= x, x < k, S(x) == UNKNOWN), z3.And(M(k) >= 0, z3.Not(less(q, g, M(k), x)))) for x in (u, w)])
        yield 'the highest node left: initially', P(IV(0))
        yield 'the highest node left: kept', z3.Implies(z3.And(rng, P(t)), P(t + 1))
        cx.fact(P(n), guard=True, pc=cx.cur_pc)
        yield 'it exists', z3.And(0 <= p, p < n, S(p) == UNKNOWN, z3.Implies(z3.And(0 <= u, u < n, S(u) == UNKNOWN), z3.Not(less(q, g, p, u))))
        yield 'it is decided', A(p) != UNKNOWN
        s.count(cx, L); U, V = s.count(cx, L), s.count(cx, Lb)
        def Q(k): return z3.And(U(k) >= 0, V(k) >= 0, V(k) <= U(k), z3.Implies(k > p, V(k) < U(k)))
        yield 'undecided nodes: initially', Q(IV(0))
        yield 'undecided nodes: kept', z3.Implies(z3.And(rng, Q(t)), Q(t + 1))
        cx.fact(Q(n), guard=True, pc=cx.cur_pc)
    def variant(s, L): return s.count(s.e.cx, L)(s.n)
    def count(s, cx, L):
        """number of undecided nodes"""
        if not hasattr(L, 'U'): _, S = s.state(cx, L); L.U = s.e.ghost('open', s.n, IV(0), lambda t, c: c + z3.If(S(t) == UNKNOWN, 1, 0))
        return L.U
def sym(e, n, m, off, adj):
    """the graph is symmetric and has no self-loops"""
    rev = e.decl('reverse', 0); y = z3.Int('y!'); r = rev(y); e.assume(z3.ForAll([y], z3.Implies(z3.And(0 <= y, y < m), z3.And(0 <= r, r < m, off.own(r) == adj(y), adj(r) == off.own(y), rev(r) == y, adj(y) != off.own(y), off(adj(y)) <= r, r < off(adj(y) + 1))), patterns=[adj(y)]))
    x = z3.Int('x!'); e.assume(z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x < n, off(x) <= y, y < off(x + 1)), off.own(y) == x), patterns=[z3.MultiPattern(off(x), adj(y))]))
def distinct(e, n, g):
    G = e.decl('number_of', 0, 8); x = z3.Int('x!'); e.assume(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < n), G(g(x)) == x), patterns=[g(x)]))
def result(e, r, n, m, off, adj, c):
    L, A = e.out(r, 1); x = e.ivar('x', 0, n); y = e.ivar('y', 0, m); by = e.cx.inv_heads[-1].ghost['by'](x); e.inst(x); e.inst(y)
    e.prove('every node is chosen or not, and only candidates are chosen', z3.And(L == n, z3.Or(A(x) == IN, A(x) == NOT_IN), z3.Implies(A(x) == IN, c(x) != 0)))
    e.prove('independent: no two chosen nodes are adjacent', z3.Not(z3.And(A(adj(y)) == IN, A(off.own(y)) == IN)))
    e.prove('maximal: every candidate not chosen has a chosen neighbour', z3.Implies(z3.And(c(x) != 0, A(x) == NOT_IN), z3.And(off(x) <= by, by < off(x + 1), A(adj(by)) == IN)))
def find(e):
    M = SymMesh(e, 'simplex', 3); n = M.n[1]; m, off, adj = gr(e, n); sym(e, n, m, off, adj); c = e.array('candidates', n, 1); q = e.array('quality', n, 8, 'f'); g = e.array('global', n, 8); distinct(e, n, g); r = e.sret()
    e.cx.invariants = [(FIND, 0, Rounds(e, n, m, off, adj, c, q, g, None))]
    e.call('Omega_h::indset::find<Omega_h::QualityCompare>', r, M.ptr, 1, off.ptr, adj, c, compare(e, q, g)); result(e, r, n, m, off, adj, c)
T('indset::find', find, 'LOCAL')
def with_graph(e):
    M = SymMesh(e, 'simplex', 3); n = M.n[1]; m, off, adj = gr(e, n); sym(e, n, m, off, adj); c = e.array('candidates', n, 1); q = e.array('quality', n, 8, 'f'); g = M.tag(1, 'global', 8, 'i'); distinct(e, n, g); r = e.sret()
    e.cx.invariants = [(FIND, 0, Rounds(e, n, m, off, adj, c, q, g, None))]
    e.call('Omega_h::find_indset', r, M.ptr, 1, gptr(e, off, adj), q, c, params='Omega_h::Graph'); result(e, r, n, m, off, adj, c)
T('find_indset with a graph', with_graph, 'LOCAL')
def star(d):
    def f(e):
        M = SymMesh(e, 'simplex', 3); n = M.n[d]; c = e.array('candidates', n, 1); q = e.array('quality', n, 8, 'f'); r = e.sret()
        if d == 3:
            e.call('Omega_h::find_indset', r, M.ptr, 3, q, c, params='int, Omega_h::Read<double>'); L, A = e.out(r, 1); x = e.ivar('x', 0, n); e.prove('elements are never adjacent: all candidates are chosen', z3.And(L == n, A(x) == c(x))); return
        m, off, adj = gr(e, n); sym(e, n, m, off, adj); g = M.tag(d, 'global', 8, 'i'); distinct(e, n, g); asked = []
        def ask_star(cx, dd, a, st): asked.append(a[2]); M.ret(a[0], off, st) if False else None; [cx.store(cx.padd(a[0], o), cx.load(cx.padd(gp, o), ptr_t(), st), ptr_t(), st) for o in (0, 8, 16, 24)]; return st, None
        gp = gptr(e, off, adj); M.h_ask_star = ask_star; e.cx.invariants = [(FIND, 0, Rounds(e, n, m, off, adj, c, q, g, None))]
        e.call('Omega_h::find_indset', r, M.ptr, d, q, c, params='int, Omega_h::Read<double>'); e.prove('the neighbours are those of the star graph of that dimension', z3.BoolVal(asked == [d])); result(e, r, n, m, off, adj, c)
    return f
for d in range(4): T('find_indset in a mesh, dimension %d' % d, star(d), 'LOCAL')
PROP = Prop('P13', TASKS, native=[Native("indset")], assumptions=['one rank', 'qualities are not NaN', 'global numbers are distinct', 'the graph is symmetric without self-loops'])
