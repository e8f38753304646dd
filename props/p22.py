from prop import *
from native import Native
import z3
from stdc import *
from p02 import C, IV
from p03 import TY, fits
U = ('graph', 'map', 'int_scan', 'array_ops', 'array', 'shared_alloc')
N = 2**31 - 2
TASKS = []
def gptr(e, off, edges):
    """a Graph argument: two array handles in one object"""
    cx = e.cx; g = cx.new_obj(e.st, 'graph', 32); c = {}
    for b, a in ((0, off), (16, edges)):
        h = e.st.objs[a.ptr.obj].cells
        for o in (0, 8): c[b + o] = (8, h[o][1], 'p')
    e.st.objs[g.obj] = RecC(c); return g
def graph(e, name, n, m=None, k=None, pre=''):
    """graph with n nodes, edges to [0,m)"""
    k = k if k is not None else e.int(name + '_nedges', 0, N)
    off = e.fan(name + '_off', n, k); ed = e.array(name + '_edges', k, rng=(0, m) if m is not None else None)
    return gptr(e, off, ed), off, ed, k
def gout(e, r):
    L, off = e.out(r); M, ed = e.out(r, off=16); return L, off, M, ed
def add_edges(e):
    n = e.int('n', 0, N); G, a, ea, ka = graph(e, 'g', n, n); H, b, eb, kb = graph(e, 'h', n, n); e.assume(ka + kb <= N); r = e.sret(32)
    x = z3.Int('x!')
    e.call('Omega_h::add_edges', r, G, H)
    L, off, M, ed = gout(e, r); v = e.ivar('v', 0, n); j = e.ivar('j', 0)
    e.prove('number of nodes', L == n + 1)
    e.induct('offsets add up', n, lambda t: off(t) == a(t) + b(t))
    e.prove('offsets', z3.And(off(IV(0)) == 0, off(v + 1) - off(v) == (a(v + 1) - a(v)) + (b(v + 1) - b(v)), M == ka + kb))
    e.prove('first the edges of the first graph, in order', z3.Implies(j < a(v + 1) - a(v), ed(off(v) + j) == ea(a(v) + j)))
    e.prove('then the edges of the second graph, in order', z3.Implies(j < b(v + 1) - b(v), ed(off(v) + (a(v + 1) - a(v)) + j) == eb(b(v) + j)))
TASKS.append(Task('add_edges', add_edges, U, contracts=C('SCAN')))
def unmap_graph(e):
    n = e.int('n', 0, N); na = e.int('na', 0, N); G, b, eb, kb = graph(e, 'g', n); u = e.array('a2b', na, rng=(0, n)); r = e.sret(32)
    e.call('Omega_h::unmap_graph', r, u, G)
    L, off, M, ed = gout(e, r); i = e.ivar('i', 0, na); j = e.ivar('j', 0)
    e.prove('number of nodes', L == na + 1)
    e.prove('offsets', z3.And(off(IV(0)) == 0, off(i + 1) - off(i) == b(u(i) + 1) - b(u(i)), M == off(na)))
    e.prove('edges of the mapped node, in order', z3.Implies(j < b(u(i) + 1) - b(u(i)), ed(off(i) + j) == eb(b(u(i)) + j)))
TASKS.append(Task('unmap_graph', unmap_graph, U, contracts=C('SCAN')))
def identity(e):
    n = e.int('n', 0, N); r = e.sret(32); e.call('Omega_h::identity_graph', r, n)
    L, off, M, ed = gout(e, r); i = e.ivar('i', 0, n); j = e.ivar('j', 0, n + 1)
    e.prove('each node has the edge to itself', z3.And(L == n + 1, M == n, off(j) == j, ed(i) == i))
TASKS.append(Task('identity_graph', identity, U))
def self_edges(e):
    n = e.int('n', 0, N // 2); G, a, ea, ka = graph(e, 'g', n, n, e.int('k', 0, N // 2)); r = e.sret(32)
    e.call('Omega_h::add_self_edges', r, G)
    L, off, M, ed = gout(e, r); v = e.ivar('v', 0, n); j = e.ivar('j', 0)
    e.induct('offsets add up', n, lambda t: off(t) == a(t) + t)
    e.prove('offsets', z3.And(L == n + 1, off(IV(0)) == 0, off(v + 1) - off(v) == 1 + (a(v + 1) - a(v)), M == n + ka))
    e.prove('first the edge to itself', ed(off(v)) == v); e.prove('then the edges, in order', z3.Implies(j < a(v + 1) - a(v), ed(off(v) + 1 + j) == ea(a(v) + j)))
TASKS.append(Task('add_self_edges', self_edges, U, contracts=C('SCAN')))
# ---- reductions over fans and graphs
OPS = {'MIN': 0, 'MAX': 1, 'SUM': 2}
MXD = z3.Q(*(1.7976931348623157e308).as_integer_ratio())
def reduced(e, op, T, F, ln, b, got):
    """got is the reduction of b(0), ..., b(ln-1); F the running value of the loop"""
    es, k = TY[T]; i = e.ivar('i', 0)
    if op == 'SUM':
        S = e.ghost('S', ln, z3.RealVal(0) if k == 'f' else IV(0), lambda t, g: g + b(t))
        e.induct('partial sums', ln, lambda t: F(t) == S(t))
        e.prove('the sum of exactly the adjacent values', got == S(ln) if k == 'f' else z3.Implies(fits(es, S(ln)), got == S(ln)))
        return
    le = (lambda x, y: x <= y) if op == 'MIN' else (lambda x, y: x >= y)
    top = (MXD if op == 'MIN' else -MXD) if k == 'f' else IV(2**(8 * es - 1) - 1 if op == 'MIN' else -2**(8 * es - 1))
    e.induct('bound so far', ln, lambda t: z3.Implies(i < t, le(F(t), b(i))))
    w = e.ghost('witness', ln, IV(-1), lambda t, g: z3.If(le(b(t), F(t)), t, g))
    e.induct('attained so far', ln, lambda t: z3.Or(z3.And(w(t) == -1, F(t) == top), z3.And(0 <= w(t), w(t) < t, F(t) == b(w(t)))))
    e.induct('some value is chosen', ln, lambda t: z3.Implies(t > 0, w(t) >= 0))
    e.prove('bounds every adjacent value', z3.Implies(i < ln, le(got, b(i))))
    e.prove('is one of the adjacent values', z3.Implies(ln > 0, z3.And(0 <= w(ln), w(ln) < ln, got == b(w(ln)))))
    e.prove('stated value without any', z3.Implies(ln == 0, got == top))
def finite(e, b):
    x = z3.Int('x!'); e.assume(z3.ForAll([x], z3.And(b(x) <= MXD, b(x) >= -MXD), patterns=[b(x)]))
def fan_reduce(T, op):
    def f(e):
        es, k = TY[T]; na = e.int('na', 0, N); nb = e.int('nb', 0, N); w = e.int('w', 0, 2**31 - 1); e.fits(nb, w); e.fits(na, w)
        off = e.fan('a2b', na, nb); b = e.array('b', nb * w, es, k); r = e.sret()
        if k == 'f': finite(e, b)
        e.call('Omega_h::fan_reduce<%s>' % T, r, off, b, w, OPS[op])
        L, rd = e.out(r, es, k); e.prove('size', L == na * w)
        a = e.ivar('a', 0, na); j = e.ivar('j', 0, w); s = e.int('start'); ln = e.int('len', 0); e.assume(z3.And(s == off(a), ln == off(a + 1) - off(a)))
        e.inst(a, j)
        reduced(e, op, T, e.foldG(-1, a, j), ln, lambda t: b((s + t) * w + j), rd(a * w + j))
    return f
for T in TY:
    for op in OPS: TASKS.append(Task('fan_reduce %s %s' % (T, op), fan_reduce(T, op), U))
def graph_reduce(T, op):
    def f(e):
        es, k = TY[T]; n = e.int('n', 0, N); m = e.int('m', 0, N); w = e.int('w', 0, 2**31 - 1); G, off, ed, ne = graph(e, 'g', n, m)
        e.fits(m, w); e.fits(ne, w); e.fits(n, w); b = e.array('b', m * w, es, k); r = e.sret()
        if k == 'f': finite(e, b)
        e.call('Omega_h::graph_reduce<%s>' % T, r, G, b, w, OPS[op])
        L, rd = e.out(r, es, k); e.prove('size', L == n * w)
        a = e.ivar('a', 0, n); j = e.ivar('j', 0, w); s = e.int('start'); ln = e.int('len', 0); e.assume(z3.And(s == off(a), ln == off(a + 1) - off(a)))
        reduced(e, op, T, e.foldG(-1, a, j), ln, lambda t: b(ed(s + t) * w + j), rd(a * w + j))
    return f
for T in TY:
    for op in OPS: TASKS.append(Task('graph_reduce %s %s' % (T, op), graph_reduce(T, op), U))
def wavg(arc):
    def f(e):
        n = e.int('n', 0, N); m = e.int('m', 0, N); w = e.int('w', 0, 2**31 - 1); G, off, ed, ne = graph(e, 'g', n, m)
        e.assume(w != 0); e.fits(m, w); e.fits(ne, w); e.fits(n, w); wt = e.array('wt', ne, 8, 'f'); b = e.array('b', (ne if arc else m) * w, 8, 'f'); r = e.sret()
        x = z3.Int('x!')
        e.call('Omega_h::graph_weighted_average' + ('_arc_data' if arc else ''), r, G, wt, b, w)
        L, rd = e.out(r, 8, 'f'); e.prove('size', L == n * w)
        a = e.ivar('a', 0, n); j = e.ivar('j', 0, w); s = e.int('start'); ln = e.int('len', 0); e.assume(z3.And(s == off(a), ln == off(a + 1) - off(a)))
        val = (lambda t: b((s + t) * w + j)) if arc else (lambda t: b(ed(s + t) * w + j))
        fs = [x for x in e.cx.folds if 'fan_reduce' in dem(x.fn)]; F1 = lambda t: fs[-2].F.decl()(a, IV(0), e.cx.zi(t)) if fs[-2].F.num_args() == 3 else fs[-2].F.decl()(a, e.cx.zi(t)); F2 = e.foldG(-1, a, j)
        W_ = e.ghost('W', ln, z3.RealVal(0), lambda t, g: g + wt(s + t)); S = e.ghost('S', ln, z3.RealVal(0), lambda t, g: g + val(t) * wt(s + t))
        e.induct('partial sum of the weights', ln, lambda t: F1(t) == W_(t)); e.induct('partial weighted sums', ln, lambda t: F2(t) == S(t))
        e.prove('weighted sum of the adjacent values over the sum of their weights', z3.Implies(W_(ln) != 0, rd(a * w + j) == S(ln) / W_(ln)))
    return f
TASKS += [Task('graph_weighted_average_arc_data', wavg(True), U), Task('graph_weighted_average', wavg(False), U)]
def count_ghost(e, keep, n):
    """number of marks before each index"""
    c = e.ghost('cnt', n, IV(0), lambda t, g: g + keep(t)); return c
def filter_edges(e):
    n = e.int('n', 0, N); m = e.int('m', 0, N); G, off, ed, ne = graph(e, 'g', n, m); keep = e.array('keep', ne, 1, rng=(0, 2)); r = e.sret(32)
    c = count_ghost(e, keep, ne); cx = e.cx
    def cand(fo):
        kids = fo.F.children()
        if 'fan_reduce' not in dem(fo.fn) or len(kids) < 2: return None
        a = kids[0]; return [lambda k, F: z3.And(F == c(off(a) + k) - c(off(a)))]
    cx.candidates.append(cand)
    e.induct('counts', ne, lambda t: z3.And(0 <= c(t), c(t) <= t), pats=lambda x: [c(x)])
    x, y = z3.Int('x!'), z3.Int('y!'); z = e.ivar('z', 0, ne)
    e.induct('counts do not decrease', ne, lambda t: z3.Implies(z <= t, c(z) <= c(t)))
    e.assume(z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x <= y, y <= ne), c(x) <= c(y)), patterns=[z3.MultiPattern(c(x), c(y))]))
    e.call('Omega_h::filter_graph_edges', r, G, keep)
    L, noff, M, ned = gout(e, r); C_, P, _, _, _ = cx.collected[0]
    v = e.ivar('v', 0, n); q = e.ivar('q', 0, ne); p = e.ivar('p', 0, M)
    e.induct('positions are counts', ne, lambda t: P(t) == c(t), pats=lambda x: [P(x)])
    e.induct('offsets count the kept edges before the node', n, lambda t: noff(t) == c(off(t)))
    e.prove('number of nodes and edges', z3.And(L == n + 1, M == c(ne), noff(IV(0)) == 0, noff(n) == M))
    e.prove('each kept edge stays at its node', z3.Implies(z3.And(off(v) <= q, q < off(v + 1), keep(q) == 1), z3.And(noff(v) <= c(q), c(q) < noff(v + 1), ned(c(q)) == ed(q))))
    e.prove('each edge of the result is a kept edge of the same node', z3.Implies(z3.And(noff(v) <= p, p < noff(v + 1)), z3.And(off(v) <= C_(p), C_(p) < off(v + 1), keep(C_(p)) == 1, ned(p) == ed(C_(p)))))
    e.prove('order is kept', z3.Implies(p + 1 < M, C_(p) < C_(p + 1)))
TASKS.append(Task('filter_graph_edges', filter_edges, U, contracts=C('SCAN', 'CM')))
def filter_nodes(e):
    n = e.int('n', 0, N); G, off, ed, ne = graph(e, 'g', n, n); keep = e.array('keep', n, 1, rng=(0, 2)); r = e.sret(32); cx = e.cx
    kq = lambda t: keep(ed(t))
    c = e.ghost('cnt', ne, IV(0), lambda t, g: g + kq(t))
    e.induct('counts', ne, lambda t: z3.And(0 <= c(t), c(t) <= t), pats=lambda x: [c(x)])
    z = e.ivar('z', 0, ne); x, y = z3.Int('x!'), z3.Int('y!')
    e.induct('counts do not decrease', ne, lambda t: z3.Implies(z <= t, c(z) <= c(t)))
    e.assume(z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x <= y, y <= ne), c(x) <= c(y)), patterns=[z3.MultiPattern(c(x), c(y))]))   # z above is any index
    def cand(fo):
        kids = fo.F.children()
        if 'filter_graph_nodes' not in dem(fo.fn) or len(kids) < 2 or fo.kind != 'i': return None
        a = kids[0]
        if getattr(cx, 'scans', None):
            OFF = cx.scans[-1][0]; C_ = cx.collected[0][0]
            yv = z3.Int('y!'); return [lambda k, F: F == OFF(a) + c(off(C_(a)) + k) - c(off(C_(a))), ([yv], lambda k, F: z3.Implies(z3.And(0 <= yv, yv < k, kq(off(C_(a)) + yv) == 1), fo.at(yv) < F))]
        return [lambda k, F: F == c(off(a) + k) - c(off(a))]
    cx.candidates.append(cand)
    # the arcs of a result node are the positions between its offsets
    cx.owner_hints.append(lambda c_, k, ev: (lambda t: (True, cx.scans[-1][1](c_.zi(t)))) if getattr(cx, 'scans', None) and ev[4] and 'F!' in str(ev[2]) else None)
    e.call('Omega_h::filter_graph_nodes', r, G, keep)
    L, noff, M, ned = gout(e, r); C_, P, L1, _, _ = cx.collected[0]
    e.prove('number of nodes', z3.And(L == L1 + 1, noff(IV(0)) == 0, noff(L1) == M))
    v = e.ivar('v', 0, L1); o = e.int('o'); e.assume(o == C_(v))
    e.prove('degrees count the kept neighbours', noff(v + 1) - noff(v) == c(off(o + 1)) - c(off(o)))
    k = e.ivar('k', 0); e.assume(k < off(o + 1) - off(o)); e.inst(v, k); q = off(o) + k
    kept = keep(ed(q)) == 1; pos = e.int('pos'); e.assume(pos == noff(v) + c(q) - c(off(o)))
    e.prove('counts within the node', z3.And(c(off(o)) <= c(q), c(q) <= c(q + 1), c(q + 1) <= c(off(o + 1)), c(q + 1) == c(q) + keep(ed(q))))
    e.prove('kept neighbours stay at their node', z3.Implies(kept, z3.And(noff(v) <= pos, pos < noff(v + 1))))
    e.prove('position of the fill loop', e.foldG(-1, v)(k) == pos)
    e.prove('position belongs to the node', z3.Implies(kept, cx.scans[-1][1](pos) == v))
    e.prove('kept neighbours, renumbered, in order', z3.Implies(kept, ned(pos) == P(ed(q))))
TASKS.append(Task('filter_graph_nodes', filter_nodes, U, contracts=C('SCAN', 'CM')))
def running_and(e, idx, n, ok, nm, first=True, when=True):
    """the conjunction loop (reached when ..): true so far means all hold, false has a witness"""
    F = e.foldF(idx); B = lambda t: F(t) if z3.is_bool(F(t)) else F(t) == 1
    y = z3.Int('y!'); pre = lambda t: z3.And(first, z3.ForAll([y], z3.Implies(z3.And(0 <= y, y < t), ok(y)))); W_ = lambda P: z3.Implies(when, P)
    if not z3.is_bool(F(IV(0))): e.induct(nm + ': 0 or 1', n, lambda t: W_(z3.Or(F(t) == 0, F(t) == 1)))
    e.induct(nm + ': true so far', n, lambda t: W_(z3.Implies(B(t), pre(t))))
    w = e.ghost('witness_' + nm, n, IV(-1), lambda t, g: z3.If(ok(t), g, t))
    e.induct(nm + ': false with a witness', n, lambda t: W_(z3.Implies(z3.Not(B(t)), z3.Or(z3.Not(first), z3.And(0 <= w(t), w(t) < t, z3.Not(ok(w(t))))))))
    return B, w
def geq(e):
    n = e.int('n', 0, N); k = e.int('k', 0, N); G, a, ea, _ = graph(e, 'g', n, None, k); H, b, eb, _ = graph(e, 'h', n, None, k)
    r = e.call('Omega_h::operator==', G, H, params='Graph'); r = r if z3.is_bool(r) else e.cx.zi(r) != 0
    i = e.ivar('i', 0, n); j = e.ivar('j', 0, k)
    B1, w1 = running_and(e, 0, n, lambda x: a(x + 1) == b(x + 1), 'offsets', a(IV(0)) == b(IV(0))); B2, w2 = running_and(e, -1, k, lambda x: ea(x) == eb(x), 'edges', True, B1(n))
    e.prove('equal graphs have equal offsets and edges', z3.Implies(r, z3.And(a(IV(0)) == b(IV(0)), a(i + 1) == b(i + 1), ea(j) == eb(j))))
    v, u = w1(n) + 1, w2(k)
    e.prove('unequal graphs differ somewhere', z3.Implies(z3.Not(r), z3.Or(a(IV(0)) != b(IV(0)), z3.And(0 <= v, v <= n, a(v) != b(v)), z3.And(0 <= u, u < k, ea(u) != eb(u)))))
TASKS.append(Task('operator== of graphs', geq, U))
def map_graph(T, onto):
    def f(e):
        es, k = TY[T]; n = e.int('n', 0, N); m = e.int('m', 0, N); w = e.int('w', 0, 2**31 - 1); ne = e.int('ne', 0, N)
        off = e.fan('off', n, ne); ed = e.injective('edges', ne, m); G = gptr(e, off, ed); e.fits(n, w); e.fits(m, w); e.fits(ne, w); d = e.array('d', n * w, es, k)
        if onto:
            iv = e.real('init') if k == 'f' else e.int('init', -2**(8 * es - 1), 2**(8 * es - 1) - 1); r = e.sret(); e.call('Omega_h::map_onto<%s>' % T, r, d, G, m, iv, w, params='Omega_h::Graph'); L, rd = e.out(r, es, k); e.prove('size', L == m * w)
        else:
            t = e.array('t', m * w, es, k); e.call('Omega_h::map_into<%s>' % T, d, G, t, w, params='Omega_h::Graph'); L, rd = e.out(t, es, k)
        a = e.ivar('a', 0, n); j = e.ivar('j', 0, w); x = e.ivar('x', 0, m); s = e.ivar('s', 0, ne)
        e.prove('every adjacent target holds the entry of the node', z3.Implies(z3.And(off(a) <= s, s < off(a + 1)), rd(ed(s) * w + j) == d(a * w + j)))
        old = iv if onto else t(x * w + j)
        e.prove('other targets keep their value', z3.Implies(z3.Or(ed.inv(x) < 0, ed.inv(x) >= ne, ed(ed.inv(x)) != x), rd(x * w + j) == old))
    return f
for T in TY: TASKS += [Task('map_into over a graph %s' % T, map_graph(T, False), U), Task('map_onto over a graph %s' % T, map_graph(T, True), U)]
PROP = Prop('P22', TASKS, native=[Native('graph'), Native('maps')])
