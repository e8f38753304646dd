from prop import *
import z3
U = ('int_scan', 'map', 'array', 'array_ops', 'sort', 'graph', 'shared_alloc')
IV = z3.IntVal
def C(*names):
    def f():
        import stdc
        return [x for n in names for x in getattr(stdc, n)]
    return f
def oscan(T, es):
    def f(e):
        n = e.int('n', 0, 2**31 - 2); a = e.array('a', n, es); r = e.sret(); nm = e.sret(32)
        e.call('Omega_h::offset_scan<%s>' % T, r, a, nm)
        L, rd = e.out(r); i = e.ivar('i', 0, n)
        e.prove('size', L == n + 1)
        e.prove('first offset', rd(IV(0)) == 0)
        e.prove('each offset adds one count', rd(i + 1) == rd(i) + a(i))
        # what callers use: non-negative counts give a fan
        e.forall(lambda x: z3.Implies(z3.And(0 <= x, x < n), a(x) >= 0), lambda x: [a(x)])
        x = e.ivar('x', 0, n + 1)
        e.induct('lemma: offsets do not decrease', n, lambda k: z3.Implies(x <= k, rd(x) <= rd(k)))
        s = e.ivar('s', 0)
        w = e.ghost('owner', n, IV(0), lambda k, g: z3.If(s < rd(k), g, k))
        e.induct('lemma: every slot has an owner', n, lambda k: z3.Implies(s < rd(k), z3.And(0 <= w(k), w(k) < k, rd(w(k)) <= s, s < rd(w(k) + 1))))
    return f
def fill(e):
    n = e.int('n', 0, 2**31 - 2); a = e.array('a', n, 4)
    e.call('Omega_h::fill_right', a)
    L, rd = e.out(a); i = e.ivar('i', 0, n)
    e.prove('first', z3.Implies(n > 0, rd(IV(0)) == a(0)))
    e.prove('running maximum', z3.Implies(i > 0, rd(i) == z3.If(a(i) > rd(i - 1), a(i), rd(i - 1))))
def collect(e):
    n = e.int('n', 0, 2**31 - 2); m = e.array('m', n, 1, rng=(0, 2)); r = e.sret()
    e.call('Omega_h::collect_marked', r, m)
    L, rd = e.out(r); OFF, own, _, _ = e.cx.scans[0]
    i = e.ivar('i', 0, n); x = e.ivar('x', 0, L); y = e.ivar('y', 0, L)
    e.induct('offsets count', n, lambda k: z3.And(0 <= OFF(k), OFF(k) <= k))
    e.prove('size is the number of marks', z3.And(L == OFF(n), 0 <= L, L <= n))
    e.prove('every marked index is collected, after the marked ones before it', z3.Implies(m(i) == 1, z3.And(OFF(i) < L, rd(OFF(i)) == i)))
    e.prove('only marked indices are collected', z3.And(0 <= rd(x), rd(x) < n, m(rd(x)) == 1, OFF(rd(x)) == x))
    e.prove('collected in increasing order', z3.Implies(x < y, rd(x) < rd(y)))
def funnel_ghost(e, name, s, nab, hi):
    """ghost cut: number of leading entries of the sorted array s that are below x"""
    c = z3.Function(name, z3.IntSort(), z3.IntSort())
    x = z3.Int('x!')
    e.assume(z3.ForAll([x], z3.And(0 <= c(x), c(x) <= nab, z3.Implies(c(x) > 0, s(c(x) - 1) < x), z3.Implies(c(x) < nab, s(c(x)) >= x)), patterns=[c(x)]))
    return c
def sorted_array(e, name, n, hi):
    s = e.array(name, n, rng=(0, hi)); x = z3.Int('x!'); y = z3.Int('y!')
    e.assume(z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x <= y, y < n), s(x) <= s(y)), patterns=[z3.MultiPattern(s(x), s(y))]))
    return s
def inv_fan(e):
    na = e.int('na', 0, 2**31 - 2); nb = e.int('nb', 0, 2**31 - 2); a = e.fan('a2b', na, nb); r = e.sret()
    e.call('Omega_h::invert_fan', r, a)
    L, rd = e.out(r)
    e.prove('size', L == nb)
    x = e.ivar('x', 0, nb)
    F = rd
    e.induct('every slot holds its owner', nb - 1, lambda k: z3.Implies(k < nb, F(k) == a.own(k)))
    e.prove('every slot holds its fan', z3.And(0 <= rd(x), rd(x) < na, a(rd(x)) <= x, x < a(rd(x) + 1)))
def inv_funnel(e):
    nab = e.int('nab', 0, 2**31 - 2); na = e.int('na', 0, 2**31 - 2)
    s = sorted_array(e, 'ab2a', nab, na); r = e.sret()
    def mo(t, at): return True, cutinv(t)
    hint = lambda cx, k, ev: None
    x0 = e.int('x0', 0); c = funnel_ghost(e, 'cut', s, nab, na)
    # the writes of different positions go to different targets: the position is the cut at the target
    e.cx.owner_hints.append(lambda cx, k, ev: (lambda t: (True, c(cx.zi(t)) - 1)) if 'a2ab' not in str(ev[2]) and 'ab2a' in str(ev[2]) else None)
    e.call('Omega_h::invert_funnel', r, s, na)
    L, rd = e.out(r); i = e.ivar('i', 0, nab); x = e.ivar('x', 0, na + 1)
    e.prove('size', L == na + 1)
    e.induct('offsets are the cuts', na, lambda k: rd(k) == c(k))
    e.prove('offset of x counts the entries below x', z3.And(0 <= rd(x), rd(x) <= nab, z3.Implies(s(i) < x, i < rd(x)), z3.Implies(i < rd(x), s(i) < x)))
    e.prove('each entry lies in the range of its value', z3.And(rd(s(i)) <= i, i < rd(s(i) + 1)))
    e.prove('ends', z3.And(rd(IV(0)) == 0, rd(na) == nab))
def mult_fans(e):
    n = e.int('n', 0, 2**31 - 2); a = e.fan('a', n); b = e.fan('b', n); r = e.sret()
    x = z3.Int('x!')
    e.call('Omega_h::multiply_fans', r, a, b)
    L, rd = e.out(r); i = e.ivar('i', 0, n)
    e.prove('size', L == n + 1); e.prove('first', rd(IV(0)) == 0)
    e.prove('each range is as long as the product of the ranges', rd(i + 1) == rd(i) + (a(i + 1) - a(i)) * (b(i + 1) - b(i)))
def inv_atomics(e):
    na = e.int('na', 0, 2**31 - 2); nb = e.int('nb', 0, 2**31 - 2); a = e.array('a2b', na, rng=(0, nb)); r = e.sret(48); n1, n2 = e.sret(32), e.sret(32)
    cx = e.cx
    def cand(fo):
        """histogram of targets: not negative; after an occurrence of X at j the count has grown; both loops count alike"""
        if fo.cls != 'acc': return None
        j = z3.Int('j!'); X = fo.X
        out = [lambda k, F: F >= 0, ((j,), lambda k, F: z3.Implies(z3.And(0 <= j, j < k, a(j) == X), fo.at(j, X) + 1 <= F))]
        first = [f for f in cx.folds if f.cls == 'acc'][0]
        if cx.dry == 0 and fo is not first: out.append(lambda k, F: z3.Implies(k <= na, F == first.at(k, X)))
        return out
    cx.candidates.append(cand)
    e.call('Omega_h::invert_map_by_atomics', r, a, nb, n1, n2)
    L, off = e.out(r); L2, it = e.out(r, off=16)
    OFF = cx.scans[0][0]; cnt = lambda k, b: [f for f in cx.folds if f.cls == 'acc'][-1].at(k, b)
    i = e.ivar('i', 0, na); b = e.ivar('b', 0, nb); x = e.ivar('x', 0, L2); e.inst(i)
    e.prove('one offset per target and one more', z3.And(L == nb + 1, off(IV(0)) == 0, off(nb) == L2))
    p = off(a(i)) + cnt(i, a(i))
    e.prove('each source is listed in the range of its target', z3.And(off(a(i)) <= p, p < off(a(i) + 1), it(p) == i))
    e.prove('a range is as long as the number of sources with that target', z3.And(off(b + 1) - off(b) == cnt(na, b)))
    # every listed entry is a source of that target: slot x of target b is the position of some source (discrete intermediate value)
    bb = e.ivar('bb', 0, nb); jj = e.ivar('jj', 0)
    w = e.ghost('occurrence', na, IV(-1), lambda k, g: z3.If(z3.And(a(k) == bb, cnt(k, bb) == jj), k, g))
    e.induct('every count is passed at some source', na, lambda k: z3.Implies(jj < cnt(k, bb), z3.And(0 <= w(k), w(k) < k, a(w(k)) == bb, cnt(w(k), bb) == jj)))
    e.inst(w(na))
    e.prove('each entry of a range is a source of that target', z3.Implies(jj < off(bb + 1) - off(bb), z3.And(0 <= it(off(bb) + jj), it(off(bb) + jj) < na, a(it(off(bb) + jj)) == bb)))
    e.prove('its place is the number of sources of that target before it: none is listed twice', z3.Implies(jj < off(bb + 1) - off(bb), z3.And(it(off(bb) + jj) == w(na), cnt(w(na), bb) == jj)))
def sort_keys(T, w):
    def f(e):
        from stdc import lex
        es = {'int': 4, 'long': 8}[T]
        n = e.int('n', 0, 2**31 - 2); e.fits(n, w); k = e.array('keys', n * w, es); r = e.sret()
        e.call('Omega_h::sort_by_keys<%s>' % T, r, k, w)
        L, rd = e.out(r); x = e.ivar('x', 0, n); y = e.ivar('y', 0, n)
        PI, INV, _, _ = e.cx.sorts[0]
        e.prove('size', L == n)
        e.prove('a permutation', z3.And(0 <= rd(x), rd(x) < n, rd(INV(x)) == x, z3.Implies(x != y, rd(x) != rd(y))))
        e.prove('keys do not decrease; equal keys keep their order', z3.Implies(x < y, z3.Or(lex(k, w, rd(x), rd(y)), z3.And(*[k(rd(x) * w + j) == k(rd(y) * w + j) for j in range(w)], rd(x) < rd(y)))))
    return f
def inv_sorting(e):
    na = e.int('na', 0, 2**31 - 2); nb = e.int('nb', 0, 2**31 - 2); a = e.array('a2b', na, rng=(0, nb)); r = e.sret(48)
    cx = e.cx
    x0 = z3.Function('cut', z3.IntSort(), z3.IntSort())
    # the cut of the sorted targets; its definition refers to the permutation, so it is given once that exists
    def after(PI, n):
        s = lambda t: a(PI(t)); x = z3.Int('x!')
        cx.fact(z3.ForAll([x], z3.And(0 <= x0(x), x0(x) <= n, z3.Implies(x0(x) > 0, s(x0(x) - 1) < x), z3.Implies(x0(x) < n, s(x0(x)) >= x)), patterns=[x0(x)]), guard=False)
    import stdc
    old = stdc.sort_by_keys_h
    def h(cx2, nm, ar, st, I):
        q = old(cx2, nm, ar, st, I)
        after(cx2.perms[-1][0], cx2.perms[-1][2]); return q
    cx.contracts.insert(0, (stdc.SBK[0][0], h))
    cx.owner_hints.append(lambda c, k, ev: (lambda t: (True, x0(c.zi(t)) - 1)) if 'a2b(perm' in str(ev[2]) else None)
    e.call('Omega_h::invert_map_by_sorting', r, a, nb)
    L, off = e.out(r); L2, it = e.out(r, off=16)
    PI, INV, _ = cx.perms[0]
    i = e.ivar('i', 0, na); b = e.ivar('b', 0, nb); x = e.ivar('x', 0, na)
    e.induct('offsets are the cuts', nb, lambda k: off(k) == x0(k))
    e.prove('one offset per target and one more', z3.And(L == nb + 1, L2 == na, off(IV(0)) == 0, off(nb) == na))
    e.prove('each source is listed once, in the range of its target', z3.And(it(INV(i)) == i, off(a(i)) <= INV(i), INV(i) < off(a(i) + 1)))
    e.prove('each entry of a range is a source of that target', z3.Implies(z3.And(off(b) <= x, x < off(b + 1)), z3.And(0 <= it(x), it(x) < na, a(it(x)) == b)))
    e.prove('sources of one target are in increasing order', z3.Implies(z3.And(off(b) <= x, x + 1 < off(b + 1)), it(x) < it(x + 1)))
def next_smallest(e):
    n = e.int('n', 0, 2**31 - 2); a = e.array('a', n); v = e.int('value', -2**31, 2**31 - 1)
    r = e.call('Omega_h::next_smallest_value<int>', a, v); r = e.cx.zi(r)
    F = e.foldF(-1); i = e.ivar('i', 0, n)
    e.induct('running minimum bounds', n, lambda k: z3.Implies(z3.And(i < k, a(i) > v), F(k) <= a(i)))
    w = e.ghost('witness', n, IV(-1), lambda k, g: z3.If(z3.And(a(k) > v, a(k) <= F(k)), k, g))
    e.induct('running minimum is attained', n, lambda k: z3.Or(F(k) == 2**31 - 1, z3.And(0 <= w(k), w(k) < k, a(w(k)) > v, F(k) == a(w(k)))))
    e.prove('no larger value is smaller', z3.Implies(a(i) > v, r <= a(i)))
    e.prove('one of the larger values, or the largest integer', z3.Or(r == 2**31 - 1, z3.And(0 <= w(n), w(n) < n, a(w(n)) > v, r == a(w(n)))))
def number_same(e):
    n = e.int('n', 0, 2**31 - 2); a = e.array('a', n); v = e.int('value', -2**31, 2**31 - 1); t = e.array('tmp', n + 1)
    r = e.call('Omega_h::number_same_values<int>', a, v, t); L, rd = e.out(t); i = e.ivar('i', 0, n)
    e.prove('starts at zero', rd(IV(0)) == 0)
    e.prove('counts the equal values', rd(i + 1) == rd(i) + z3.If(a(i) == v, 1, 0))
    e.prove('returns the total', e.cx.zi(r) == rd(n))
def combine(e):
    n = e.int('n', 0, 2**31 - 2); a = e.array('a', n); v = e.int('value', -2**31, 2**31 - 1); t = e.array('tmp', n + 1); p = e.array('perm', n); nd = e.int('ndone', 0, 2**31 - 1)
    e.call('Omega_h::combine_perms<int>', a, v, t, p, nd); L, rd = e.out(p); i = e.ivar('i', 0, n)
    e.prove('positions of the equal values', z3.Implies(a(i) == v, rd(i) == z3.If(i == 0, 0, t(i)) + nd))
    e.prove('other positions are untouched', z3.Implies(a(i) != v, rd(i) == p(i)))
TASKS = [Task('offset_scan I8', oscan('signed char', 1), U), Task('offset_scan I32', oscan('int', 4), U), Task('fill_right', fill, U),
    Task('collect_marked', collect, U, contracts=C('SCAN')), Task('invert_fan', inv_fan, U), Task('invert_funnel', inv_funnel, U), Task('multiply_fans', mult_fans, U, contracts=C('SCAN')), Task('invert_map_by_atomics', inv_atomics, U, contracts=C('SCAN'))]
TASKS += [Task('sort_by_keys %s width %d' % (T, w), sort_keys(T, w), U, contracts=C('SORT')) for T in ('int', 'long') for w in (1, 2, 3, 4)]
TASKS += [Task('invert_map_by_sorting', inv_sorting, U), Task('next_smallest_value', next_smallest, U), Task('number_same_values', number_same, U), Task('combine_perms', combine, U)]

from native import Native
PROP = Prop('P02', TASKS, native=[Native('maps')], trusted=['std::stable_sort: rearranges the range into the order of its comparator, equivalent elements in their original order (that the comparator is a strict weak order is an obligation)'],
    assumptions=['sort_small_range: its three parallel steps are proved, its outer loop over std::vector is checked on bounded inputs only'])
