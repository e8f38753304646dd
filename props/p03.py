from prop import *
from native import Native
import z3
U = ('array_ops', 'array')
IV = z3.IntVal
TY = {'signed char': (1, 'i'), 'int': (4, 'i'), 'long': (8, 'i'), 'double': (8, 'f')}
TASKS = []
def fits(es, v): return z3.And(v >= -2**(8 * es - 1), v < 2**(8 * es - 1))
def val(e, T, name):
    es, k = TY[T]
    return e.real(name) if k == 'f' else e.int(name, -2**(8 * es - 1), 2**(8 * es - 1) - 1)
b01 = lambda c: z3.If(c, IV(1), IV(0))
mn = lambda x, y: z3.If(y < x, y, x)
mx = lambda x, y: z3.If(x < y, y, x)
def tdiv(x, y):  # C division of integers: truncation towards zero
    q = z3.If(x >= 0, x, -x) / z3.If(y >= 0, y, -y)
    return z3.If((x >= 0) == (y >= 0), q, -q)
def each(fn, T, spec, out=None, scalar=False, name=False, pre=None, units=U, nargs=2, tmpl=True):
    """c[i] = spec(a[i], b[i] or b)"""
    def f(e):
        es, k = TY[T]; oes, ok = TY[out] if out else (es, k)
        n = e.int('n', 0, 2**31 - 1); a = e.array('a', n, es, k); r = e.sret()
        args = [a]
        if nargs == 2: b = val(e, T, 'b') if scalar else e.array('b', n, es, k); args.append(b)
        if name: args.append(e.sret(32))
        g = (lambda i: (a(i), b if scalar else b(i))) if nargs == 2 else (lambda i: (a(i),))
        if pre is not None:
            x = z3.Int('x!')
            e.assume(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < n), pre(*g(x))), patterns=[a(x)]))
        e.call('Omega_h::%s%s' % (fn, '<%s>' % T if tmpl else ''), r, *args)
        L, rd = e.out(r, oes, ok); i = e.ivar('i', 0, n); s = spec(*g(i))
        e.prove('size', L == n)
        got = rd(i) == s
        e.prove('each entry is its definition', z3.Implies(fits(oes, s), got) if ok == 'i' else got)
    TASKS.append(Task('%s %s' % (fn, T), f, units))
ALL = ('signed char', 'int', 'long', 'double')
for T in ALL:
    isf = TY[T][1] == 'f'
    nz = lambda *v: v[1] != 0
    ov = lambda x, y: z3.And(y != 0, y != -1)   # most negative / -1 overflows
    each('multiply_each_by', T, lambda x, y: x * y, scalar=True)
    each('divide_each_by', T, (lambda x, y: x / y) if isf else tdiv, scalar=True, pre=nz if isf else ov)
    each('add_each', T, lambda x, y: x + y, name=True)
    each('subtract_each', T, lambda x, y: x - y)
    each('add_to_each', T, lambda x, y: x + y, scalar=True)
    each('subtract_from_each', T, lambda x, y: x - y, scalar=True)
    each('min_each', T, mn); each('max_each', T, mx); each('each_max_with', T, mx, scalar=True)
    for fn, op in (('each_geq_to', lambda x, y: x >= y), ('each_leq_to', lambda x, y: x <= y), ('each_gt', lambda x, y: x > y), ('each_lt', lambda x, y: x < y), ('each_neq_to', lambda x, y: x != y), ('each_eq_to', lambda x, y: x == y)):
        each(fn, T, lambda x, y, op=op: b01(op(x, y)), 'signed char', scalar=True)
    for fn, op in (('gt_each', lambda x, y: x > y), ('lt_each', lambda x, y: x < y), ('eq_each', lambda x, y: x == y), ('neq_each', lambda x, y: x != y), ('each_eq', lambda x, y: x == y)):
        each(fn, T, lambda x, y, op=op: b01(op(x, y)), 'signed char')
each('land_each', 'signed char', lambda x, y: b01(z3.And(x != 0, y != 0)), tmpl=False)
each('lor_each', 'signed char', lambda x, y: b01(z3.Or(x != 0, y != 0)), tmpl=False)
each('fabs_each', 'double', lambda x: z3.If(x >= 0, x, -x), nargs=1, tmpl=False)
each('invert_each', 'double', lambda x: 1 / x, nargs=1, tmpl=False, pre=lambda x: x != 0)
each('pow_each', 'double', lambda x, y: z3.Function('math_pow', z3.RealSort(), z3.RealSort(), z3.RealSort())(x, y), tmpl=False)
def bits(e):
    n = e.int('n', 0, 2**31 - 1); a = e.array('a', n, 1, rng=(0, 2)); b = e.array('b', n, 1, rng=(0, 2)); r = e.sret()
    e.call('Omega_h::bit_or_each', r, a, b)
    L, rd = e.out(r, 1); i = e.ivar('i', 0, n)
    e.prove('size', L == n); e.prove('or of marks', rd(i) == b01(z3.Or(a(i) == 1, b(i) == 1)))
def neg(e):
    n = e.int('n', 0, 2**31 - 1); a = e.array('a', n, 1); r = e.sret()
    e.call('Omega_h::bit_neg_each', r, a)
    L, rd = e.out(r, 1); i = e.ivar('i', 0, n)
    e.prove('size', L == n); e.prove('complement', rd(i) == -1 - a(i))
TASKS += [Task('bit_or_each on marks', bits, U), Task('bit_neg_each', neg, U)]
def interp(e):
    n = e.int('n', 0, 2**31 - 1); a = e.array('a', n, 8, 'f'); b = e.array('b', n, 8, 'f'); t = e.real('t'); r = e.sret()
    e.call('Omega_h::interpolate_between', r, a, b, t)
    L, rd = e.out(r, 8, 'f'); i = e.ivar('i', 0, n)
    e.prove('size', L == n); e.prove('linear interpolation', rd(i) == a(i) * (1 - t) + b(i) * t)
TASKS.append(Task('interpolate_between', interp, U))
def cast(To, Ti):
    def f(e):
        n = e.int('n', 0, 2**31 - 1); a = e.array('a', n, *TY[Ti]); r = e.sret()
        e.call('Omega_h::array_cast<%s, %s>' % (To, Ti), r, a)
        L, rd = e.out(r, *TY[To]); i = e.ivar('i', 0, n)
        e.prove('size', L == n); e.prove('same value', rd(i) == (z3.ToReal(a(i)) if To == 'double' else a(i)))
    return f
TASKS += [Task('array_cast int to double', cast('double', 'int'), U), Task('array_cast I8 to int', cast('int', 'signed char'), U)]
# ---- width broadcasting
def bcast(fn, T, spec, name=True, pre=None, maybe=False):
    def f(e):
        es, k = TY[T]; n = e.int('n', 1, 2**31 - 1); w = e.int('w', 0, 2**31 - 1); e.fits(n, w)
        a = e.array('a', n * w, es, k); b = e.array('b', n, es, k); r = e.sret()
        if pre is not None:
            x = z3.Int('x!')
            e.assume(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < n), pre(b(x))), patterns=[b(x)]))
        if maybe:
            x = z3.Int('x!'); y = z3.Int('y!')
            e.assume(z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x < n, b(x) == 0, 0 <= y, y < w), a(x * w + y) == 0), patterns=[z3.MultiPattern(b(x), a(x * w + y))]))
        e.call('Omega_h::%s' % fn, r, a, b, *([e.sret(32)] if name else []))
        L, rd = e.out(r, es, k); i = e.ivar('i', 0, n); j = e.ivar('j', 0, w); s = spec(a(i * w + j), b(i))
        e.prove('size', L == n * w)
        e.prove('component j of entry i', z3.Implies(fits(es, s), rd(i * w + j) == s) if k == 'i' else rd(i * w + j) == s)
    TASKS.append(Task('%s %s' % (fn.split('<')[0], T), f, U))
    def g(e):
        es, k = TY[T]; a = e.array('a', IV(0), es, k); b = e.array('b', IV(0), es, k); r = e.sret()
        e.call('Omega_h::%s' % fn, r, a, b, *([e.sret(32)] if name else []))
        L, rd = e.out(r, es, k); e.prove('empty in, empty out', e.cx.zi(L) == 0)
    TASKS.append(Task('%s %s, empty' % (fn.split('<')[0], T), g, U))
for T in ALL:
    bcast('multiply_each<%s>' % T, T, lambda x, y: x * y)
    if TY[T][1] == 'f': bcast('divide_each<%s>' % T, T, lambda x, y: x / y, pre=lambda y: y != 0)
    else: bcast('divide_each<%s>' % T, T, tdiv, pre=lambda y: z3.And(y != 0, y != -1))
bcast('divide_each_maybe_zero', 'double', lambda x, y: z3.If(y == 0, z3.RealVal(0), x / y), name=False, maybe=True)
def ternary(T):
    def f(e):
        es, k = TY[T]; n = e.int('n', 1, 2**31 - 1); w = e.int('w', 0, 2**31 - 1); e.fits(n, w)
        c = e.array('c', n, 1); a = e.array('a', n * w, es, k); b = e.array('b', n * w, es, k); r = e.sret()
        e.call('Omega_h::ternary_each<%s>' % T, r, c, a, b)
        L, rd = e.out(r, es, k); i = e.ivar('i', 0, n); j = e.ivar('j', 0, w)
        e.prove('size', L == n * w)
        e.prove('selected component', rd(i * w + j) == z3.If(c(i) != 0, a(i * w + j), b(i * w + j)))
    def g(e):
        es, k = TY[T]; c = e.array('c', IV(0), 1); a = e.array('a', IV(0), es, k); b = e.array('b', IV(0), es, k); r = e.sret()
        e.call('Omega_h::ternary_each<%s>' % T, r, c, a, b)
        L, rd = e.out(r, es, k); e.prove('empty in, empty out', e.cx.zi(L) == 0)
    TASKS.append(Task('ternary_each %s' % T, f, U)); TASKS.append(Task('ternary_each %s, empty' % T, g, U))
def get_comp(T):
    def f(e):
        es, k = TY[T]; n = e.int('n', 0, 2**31 - 1); w = e.int('w', 1, 2**31 - 1); e.fits(n, w); c = e.int('c', 0, 2**31 - 1); e.assume(c < w)
        a = e.array('a', n * w, es, k); r = e.sret()
        e.call('Omega_h::get_component<%s>' % T, r, a, w, c)
        L, rd = e.out(r, es, k); i = e.ivar('i', 0, n)
        e.prove('size', L == n); e.prove('component', rd(i) == a(i * w + c))
    def g(e):
        es, k = TY[T]; n = e.int('n', 0, 2**31 - 1); w = e.int('w', 1, 2**31 - 1); e.fits(n, w); c = e.int('c', 0, 2**31 - 1); e.assume(c < w)
        o = e.array('o', n * w, es, k); a = e.array('a', n, es, k)
        e.call('Omega_h::set_component<%s>' % T, o, a, w, c)
        L, rd = e.out(o, es, k); i = e.ivar('i', 0, n); j = e.ivar('j', 0, w)
        e.prove('the component is set, the others stay', rd(i * w + j) == z3.If(j == c, a(i), o(i * w + j)))
    TASKS.append(Task('get_component %s' % T, f, U)); TASKS.append(Task('set_component %s' % T, g, U))
# ---- reductions
def conjunction(e, n, r, ok, yes, no):
    """r is the conjunction of ok(i) over 0 <= i < n"""
    r = r if z3.is_bool(r) else e.cx.zi(r) != 0
    F = e.foldF(-1); i = e.ivar('i', 0)
    B = lambda t: F(t) if z3.is_bool(F(t)) else F(t) == 1
    if not z3.is_bool(F(IV(0))): e.induct('0 or 1', n, lambda t: z3.Or(F(t) == 0, F(t) == 1))
    e.induct('true so far', n, lambda t: z3.Implies(z3.And(B(t), i < t), ok(i)))
    w = e.ghost('witness', n, IV(-1), lambda t, g: z3.If(ok(t), g, t))
    e.induct('false with a witness', n, lambda t: z3.Implies(z3.Not(B(t)), z3.And(0 <= w(t), w(t) < t, z3.Not(ok(w(t))))))
    e.prove(yes, z3.Implies(z3.And(r, i < n), ok(i)))
    e.prove(no, z3.Implies(z3.Not(r), z3.And(0 <= w(e.cx.zi(n)), w(e.cx.zi(n)) < n, z3.Not(ok(w(e.cx.zi(n)))))))
def reduction(T):
    es, k = TY[T]
    def eq(e):
        n = e.int('n', 0, 2**31 - 1); a = e.array('a', n, es, k); b = e.array('b', n, es, k)
        r = e.call('Omega_h::operator==<%s>' % T, a, b)
        conjunction(e, n, r, lambda i: a(i) == b(i), 'equal arrays have equal entries', 'unequal arrays differ somewhere')
    TASKS.append(Task('operator== %s' % T, eq, U))
    def srt(e):
        n = e.int('n', 0, 2**31 - 1); a = e.array('a', n, es, k)
        r = e.call('Omega_h::is_sorted<%s>' % T, a)
        conjunction(e, z3.If(n > 0, n - 1, IV(0)), r, lambda i: a(i) <= a(i + 1), 'sorted arrays do not decrease', 'unsorted arrays decrease somewhere')
    TASKS.append(Task('is_sorted %s' % T, srt, U))
    def last(e):
        n = e.int('n', 0, 2**31 - 1); a = e.array('a', n, es, k); v = val(e, T, 'v')
        r = e.cx.zi(e.call('Omega_h::find_last<%s>' % T, a, v)); i = e.ivar('i', 0, n)
        F = e.foldF(-1)
        e.induct('latest match so far', n, lambda t: z3.And(-1 <= F(t), F(t) < t, z3.Implies(z3.And(i < t, a(i) == v), F(t) >= i), z3.Or(F(t) == -1, a(F(t)) == v)))
        e.prove('the last index holding the value, or -1', z3.And(-1 <= r, r < n, z3.Or(r == -1, a(r) == v), z3.Implies(a(i) == v, i <= r)))
    TASKS.append(Task('find_last %s' % T, last, U))
    if k == 'i':
        def sm(e):
            n = e.int('n', 0, 2**31 - 1); a = e.array('a', n, es, k)
            r = e.cx.zi(e.call('Omega_h::get_sum<%s>' % T, a, params='(Omega_h::Read<'))
            S = e.ghost('S', n, IV(0), lambda t, g: g + a(t)); F = e.foldF(-1)
            e.induct('partial sums', n, lambda t: F(t) == S(t))
            e.prove('the sum', r == S(n)); e.prove('zero when empty', z3.Implies(n == 0, r == 0))
        TASKS.append(Task('get_sum %s' % T, sm, U))
    else:
        def sm(e):
            n = e.int('n', 0, 2**31 - 1); a = e.array('a', n, es, k)
            r = e.cx.zf(e.call('Omega_h::get_sum<%s>' % T, a, params='(Omega_h::Read<'))
            S = e.ghost('S', n, z3.RealVal(0), lambda t, g: g + a(t)); F = e.foldF(-1)
            e.induct('partial sums', n, lambda t: F(t) == S(t))
            e.prove('the sum', r == S(n)); e.prove('zero when empty', z3.Implies(n == 0, r == 0))
        TASKS.append(Task('get_sum %s' % T, sm, U))
    for fn, lt, ext in (('get_min', lambda x, y: x <= y, 'max'), ('get_max', lambda x, y: x >= y, 'min')):
        def mm(e, fn=fn, lt=lt, ext=ext):
            n = e.int('n', 0, 2**31 - 1); a = e.array('a', n, es, k)
            r = e.call('Omega_h::%s<%s>' % (fn, T), a, params='(Omega_h::Read<')
            F = e.foldF(-1)
            if k == 'f':
                r = e.cx.zf(r); mxd = z3.Q(*(1.7976931348623157e308).as_integer_ratio()); init = mxd if ext == 'max' else -mxd
                x = z3.Int('x!'); e.assume(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < n), z3.And(a(x) <= mxd, a(x) >= -mxd)), patterns=[a(x)]))
            else: r = e.cx.zi(r); init = IV(2**(8 * es - 1) - 1 if ext == 'max' else -2**(8 * es - 1))
            i = e.ivar('i', 0, n)
            e.induct('bound so far', n, lambda t: z3.Implies(i < t, lt(F(t), a(i))))
            w = e.ghost('witness', n, IV(-1), lambda t, g: z3.If(lt(a(t), F(t)), t, g))
            e.induct('attained so far', n, lambda t: z3.Or(z3.And(t == 0, F(t) == init), z3.And(w(t) == -1, F(t) == init), z3.And(0 <= w(t), w(t) < t, F(t) == a(w(t)))))
            e.induct('some entry is chosen', n, lambda t: z3.Implies(t > 0, w(t) >= 0))
            e.prove('bounds every entry', lt(r, a(i)))
            e.prove('is an entry', z3.Implies(n > 0, z3.And(0 <= w(n), w(n) < n, r == a(w(n)))))
            e.prove('stated value when empty', z3.Implies(n == 0, r == init))
        TASKS.append(Task('%s %s' % (fn, T), mm, U))
for T in ALL: ternary(T); get_comp(T); reduction(T)
def close(fn):
    def f(e):
        n = e.int('n', 0, 2**31 - 1); a = e.array('a', n, 8, 'f'); b = e.array('b', n, 8, 'f'); t = e.real('tol'); fl = e.real('floor')
        ab = lambda x: z3.If(x >= 0, x, -x)
        if fn == 'are_close':
            r = e.call('Omega_h::are_close', a, b, t, fl, params='(Omega_h::Read'); 
            def ok(x, y):
                m = z3.If(ab(x) < ab(y), ab(y), ab(x))
                return z3.Or(z3.And(ab(x) <= fl, ab(y) <= fl), ab(y - x) / m <= t)
        else:
            r = e.call('Omega_h::are_close_abs', a, b, t); ok = lambda x, y: ab(x - y) <= t
        e.assume(z3.And(t >= 0, fl >= 0))
        conjunction(e, n, r, lambda i: ok(a(i), b(i)), 'close arrays are close everywhere', 'others differ somewhere')
    return f
TASKS += [Task('are_close', close('are_close'), U), Task('are_close_abs', close('are_close_abs'), U)]
# ---- lists of arrays (the number of arrays is bounded: 1 to 4)
W = '#include <Omega_h_array_ops.hpp>\n#include <vector>\nnamespace Omega_h {\n'
for T, c in (('int', 'I32'), ('double', 'Real')):
    for m in (1, 2, 3, 4):
        ps = ', '.join('Read<%s> a%d' % (c, i) for i in range(m)); l = ', '.join('a%d' % i for i in range(m))
        for fn in ('interleave', 'coalesce'):
            W += 'Read<%s> w_%s_%s_%d(%s) { std::vector<Read<%s>> v; v.reserve(%d); %s return %s(v); }\n' % (c, fn, c, m, ps, c, m, ' '.join('v.push_back(a%d);' % i for i in range(m)), fn)
W += '}\n'
def lists(fn, T, c, m):
    def f(e):
        es, k = TY[T]
        if fn == 'interleave': n = e.int('n', 0, 2**31 - 1); e.fits(n, m); ns = [n] * m
        else:
            ns = [e.int('n%d' % i, 0, 2**31 - 1) for i in range(m)]; e.assume(sum(ns[1:], ns[0]) <= 2**31 - 1)
        A = [e.array('a%d' % i, ns[i], es, k) for i in range(m)]; r = e.sret()
        e.call('Omega_h::w_%s_%s_%d' % (fn, c, m), r, *A)
        L, rd = e.out(r, es, k)
        e.prove('size', e.cx.zi(L) == sum(ns[1:], ns[0]))
        off = IV(0)
        for j in range(m):
            i = e.ivar('i%d' % j, 0, ns[j])
            e.prove('entry of array %d' % j, rd(i * m + j if fn == 'interleave' else off + i) == A[j](i)); off = off + ns[j]
    return f
for T, c in (('int', 'I32'), ('double', 'Real')):
    for m in (1, 2, 3, 4):
        for fn in ('interleave', 'coalesce'): TASKS.append(Task('%s of %d arrays %s' % (fn, m, T), lists(fn, T, c, m), U, extra=W))
PROP = Prop('P03', TASKS, native=[Native('array_ops')], assumptions=['floating-point sums and products are treated as real arithmetic', 'interleave and coalesce: lists of 1 to 4 arrays'])
