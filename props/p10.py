from prop import *
from native import Native
import z3
from p05 import BV, asbv
from rt import R, dem, Unsupported
H = '''#include <Omega_h_hilbert.hpp>
using namespace Omega_h;
void w_a2t(hilbert::coord_t* X, int b, int n) { hilbert::AxestoTranspose(X, b, n); }
void w_t2a(hilbert::coord_t* X, int b, int n) { hilbert::TransposetoAxes(X, b, n); }
void w_unt(hilbert::coord_t const* in, hilbert::coord_t* out, int b, int n) { hilbert::untranspose(in, out, b, n); }
'''
def cells(e, vals, name='X'):
    """an array of 64-bit words in memory"""
    p = e.cx.new_obj(e.st, name, 8 * len(vals))
    from rt import RecC
    e.st.objs[p.obj] = RecC({8 * i: (8, v, 'i') for i, v in enumerate(vals)})
    return p
def read(e, p, n, st=None):
    from rt import int_t
    return [asbv(e.cx.load(e.cx.padd(p, 8 * i), int_t(64), st or e.st), 64) for i in range(n)]
def write(e, p, vals, st):
    from rt import int_t
    for i, v in enumerate(vals): e.cx.store(e.cx.padd(p, 8 * i), v, int_t(64), st)
def trace(e, fn, vals, b):
    """runs the real function on `vals`, cutting the main loop at every
    iteration: returns [(state before iteration k as fresh symbols)], and for
    every k the words the code computes from state k (the last entry is the
    final result computed from the state at loop exit)"""
    n = len(vals); tag = e.cx.fresh_name('s')
    p = cells(e, vals, tag); T = []; S = []
    def cut(nm, st):
        S.append(read(e, p, n, st))
        f = [BV('%s_%d_%d' % (tag, len(T), i), 64) for i in range(n)]
        T.append(f); write(e, p, f, st)
    e.cx.cut = cut
    e.call('w_a2t' if fn == 'a2t' else 'w_t2a', p, b, n)
    e.cx.cut = None
    S.append(read(e, p, n))
    return T, S
def sub(x, fr, to): return z3.substitute(x, *zip(fr, to))
def AND(*l): return z3.And(*l) if len(l) > 1 else l[0]
def eqs(a, b): return AND(*[x == y for x, y in zip(a, b)])
def small(v, b): return AND(*[z3.LShR(x, b) == 0 for x in v])
def roundtrip(n, b):
    def g(e):
        a = [BV('a%d' % i, 64) for i in range(n)]
        A, SA = trace(e, 'a2t', a, b); U, SU = trace(e, 't2a', a, b)
        e.prove('one iteration per bit above the lowest, in both directions', z3.BoolVal(len(A) == b and len(U) == b))
        e.prove('the loop starts from the coordinates', eqs(SA[0], a))
        x = [BV('x%d' % i, 64) for i in range(n)]
        fwd = lambda k, v: [sub(t, A[k], v) for t in SA[k + 1]]       # iteration k of axes -> transpose
        bwd = lambda k, v: [sub(t, U[k], v) for t in SU[k + 1]]       # iteration k of transpose -> axes
        for k in range(b - 1):
            j = b - 2 - k
            e.prove('bit %d: exchange then undo' % (j + 1), eqs(bwd(j, fwd(k, x)), x))
            e.prove('bit %d: undo then exchange' % (j + 1), eqs(fwd(k, bwd(j, x)), x))
            e.prove('bit %d: exchange stays in range' % (j + 1), z3.Implies(small(x, b), small(fwd(k, x), b)))
            e.prove('bit %d: undo stays in range' % (j + 1), z3.Implies(small(x, b), small(bwd(j, x), b)))
        enc = lambda v: [sub(t, A[b - 1], v) for t in SA[b]]
        dec = lambda v: [sub(t, a, v) for t in SU[0]]
        e.prove('the undo loop ends with the result', eqs(SU[b], U[b - 1]))
        e.prove('Gray code decodes', z3.Implies(small(x, b), eqs(dec(enc(x)), x)))
        e.prove('Gray code encodes', z3.Implies(small(x, b), eqs(enc(dec(x)), x)))
        e.prove('Gray code stays in range', z3.Implies(small(x, b), AND(small(dec(x), b), small(enc(x), b))))
        # the whole: composing the steps (contracts of the iterations only)
        W = z3.DeclareSort('Words'); ok = z3.Function('in_range', W, z3.BoolSort()); F = lambda nm: z3.Function(nm, W, W)
        E, D = F('gray'), F('ungray')
        def chain(name, v0, first, steps, last, inv):
            """v0 -> first -> steps -> last, each undone by inv"""
            v = v0; st = [first] + steps + [last]; hy = [ok(v0)]; vs = []
            for f in st:
                if f is None: continue
                hy.append(z3.Implies(ok(v), z3.And(ok(f(v)), inv[f](f(v)) == v))); vs.append(f); v = f(v)
            u = v
            for f in reversed(vs): u = inv[f](u)
            e.prove(name, z3.Implies(AND(*hy), u == v0))
        fs = [F('fwd%d' % k) for k in range(b - 1)]; bs = [F('bwd%d' % k) for k in range(b - 1)]
        inv = {E: D, D: E}
        for k in range(b - 1): inv[fs[k]] = bs[b - 2 - k]; inv[bs[b - 2 - k]] = fs[k]
        v0 = z3.Const('v0', W)
        chain('coordinates to curve position and back', v0, None, fs, E, inv)
        chain('curve position to coordinates and back', v0, D, bs, None, inv)
    return g
def bit(x, k): return z3.Extract(k, k, x)
def low(v, k): return [z3.Extract(k - 1, 0, x) for x in v]
def ones(v, k): return AND(*[z3.Extract(k - 1, 0, x) == (1 << k) - 1 for x in v]) if k else z3.BoolVal(True)
def digit(v, k): return z3.Concat(*[bit(x, k) for x in v]) if len(v) > 1 else bit(v[0], k)
def adjacent(x, y):
    """same cell but for one coordinate, which differs by one"""
    n = len(x); o = []
    for i in range(n):
        w = x[i].size(); a, c = z3.ZeroExt(1, x[i]), z3.ZeroExt(1, y[i])
        o.append(AND(*([z3.Or(a == c + 1, c == a + 1)] + [x[j] == y[j] for j in range(n) if j != i])))
    return z3.Or(*o)
def inter(v, b):
    """the curve position: bits of the words, highest first, word 0 first"""
    l = [bit(x, k) for k in reversed(range(b)) for x in v]
    return z3.Concat(*l) if len(l) > 1 else l[0]
def levels(X, Y, b, ks):
    """next position, level by level"""
    n = len(X)
    return [digit(Y, k) == digit(X, k) + z3.If(ones(X, k), z3.BitVecVal(1, n), z3.BitVecVal(0, n)) for k in ks if k < b]
def neighbours(n, b):
    def g(e):
        X = [BV('X%d' % i, 64) for i in range(n)]; Y = [BV('Y%d' % i, 64) for i in range(n)]
        U, S = trace(e, 't2a', X, b)
        e.prove('one iteration per bit above the lowest', z3.BoolVal(len(U) == b))
        nxt = AND(inter(Y, b) == inter(X, b) + 1, z3.Not(ones(X, b)), small(X, b), small(Y, b))
        R = AND(*(levels(X, Y, b, range(b)) + [z3.Not(ones(X, b)), small(X, b), small(Y, b)]))
        e.prove('next position: level by level', z3.Implies(nxt, R), 'lemma')
        for k in range(1, b):
            e.prove('next position: levels above %d are kept without a carry' % k, z3.Implies(AND(small(X, b), small(Y, b), *levels(X, Y, b, range(k, b))), z3.Or(ones(X, k), eqs([z3.LShR(x, k) for x in X], [z3.LShR(y, k) for y in Y]))), 'lemma')
        dec = lambda v: [sub(t, X, v) for t in S[0]]
        step = lambda k, v: [sub(t, U[k - 1], v) for t in S[k]]
        def I(k, x, y):
            """low k bits of both states: the part of the curve inside a cube of side 2^k"""
            def corner(v, P):
                p = bit(P[n - 1], k) == 1 if k < b else z3.BoolVal(False)
                return eqs(low(v, k), [z3.If(p, z3.BitVecVal(0, k), z3.BitVecVal((1 << k) - 1 if i == 0 else 0, k)) for i in range(n)])
            c = ones(X, k)
            end = z3.And(corner(x, X), eqs(low(x, k), low(y, k)))
            up = AND(eqs([z3.LShR(v, k) for v in x], [z3.LShR(v, k) for v in dec(X)]), eqs([z3.LShR(v, k) for v in y], [z3.LShR(v, k) for v in dec(Y)]))
            return z3.And(up, z3.If(c, end, z3.And(eqs([z3.LShR(v, k) for v in X], [z3.LShR(v, k) for v in Y]), adjacent(low(x, k), low(y, k)))))
        x = [BV('x%d' % i, 64) for i in range(n)]; y = [BV('y%d' % i, 64) for i in range(n)]
        # (the consequence of the levels proved above: without a carry the words agree above the level)
        same = lambda k: z3.Or(ones(X, k), eqs([z3.LShR(v, k) for v in X], [z3.LShR(v, k) for v in Y])) if k < b else z3.BoolVal(True)
        rng = AND(small(X, b), small(Y, b), z3.Not(ones(X, b)))
        e.prove('level 1: consecutive positions', z3.Implies(AND(rng, same(1), *levels(X, Y, b, [0, 1])), I(1, dec(X), dec(Y))))
        for k in range(1, b):
            e.prove('level %d to %d: consecutive positions stay in adjacent cells' % (k, k + 1), z3.Implies(AND(rng, same(k), same(k + 1), I(k, x, y), *levels(X, Y, b, [k, k + 1])), I(k + 1, step(k, x), step(k, y))))
        e.prove('the result is the state after the last level', eqs(S[b], U[b - 1]))
        e.prove('consecutive positions of the curve are face neighbours', z3.Implies(AND(z3.Not(ones(X, b)), I(b, x, y), small(x, b), small(y, b)), adjacent(x, y)))
        e.prove('the curve starts at the corner', z3.Implies(AND(*[v == 0 for v in X]), AND(*[v == 0 for v in dec(X)])))
        for k in range(1, b): e.prove('level %d keeps the corner' % k, AND(*[z3.simplify(t) == 0 for t in step(k, [z3.BitVecVal(0, 64)] * n)]))
    return g
def regroup(n, b):
    def g(e):
        X = [BV('X%d' % i, 64) for i in range(n)]; e.assume(small(X, b))
        i, o = cells(e, X, 'in'), cells(e, [BV('o%d' % i, 64) for i in range(n)], 'out')
        e.call('w_unt', i, o, b, n); r = read(e, o, n)
        cat = lambda v: z3.Concat(*[z3.Extract(b - 1, 0, x) for x in v]) if n > 1 else z3.Extract(b - 1, 0, v[0])
        e.prove('every word has that many bits', small(r, b))
        e.prove('the words, one after the other, are the curve position', cat(r) == inter(X, b))
        e.prove('the input is left alone', eqs(read(e, i, n), X))
        # comparing the keys word by word (as signed 64-bit numbers) compares the positions
        K = [BV('k%d' % i, 64) for i in range(n)]; L = [BV('l%d' % i, 64) for i in range(n)]
        lt = lambda i: z3.BoolVal(False) if i == n else z3.Or(K[i] < L[i], z3.And(K[i] == L[i], lt(i + 1)))
        e.prove('lexical order of keys is the order along the curve', z3.Implies(z3.And(small(K, b), small(L, b)), lt(0) == z3.ULT(cat(K), cat(L))))
    return g
D64 = z3.Float64()
def clampfp(e):
    x = z3.FP('x', D64); e.assume(z3.Not(z3.fpIsNaN(x)))
    r = e.cx.zf(e.call('w_clamp', x)); z, o = z3.FPVal(0.0, D64), z3.FPVal(1.0, D64)
    e.prove('in the unit interval', z3.And(z3.fpLEQ(z, r), z3.fpLEQ(r, o)))
    e.prove('nearest point of the unit interval', z3.If(z3.fpLT(x, z), z3.fpEQ(r, z), z3.If(z3.fpGT(x, o), z3.fpEQ(r, o), z3.fpEQ(r, x))))
def gridc(fp):
    """contracts of the parts of from_spatial that are proved on their own"""
    from rt import R, int_t, dbl_t
    def clamp(cx, nm, a, st, I):
        k = len(cx.ev_clamp); cx.ev_clamp.append(a)
        r = cx.ev_u[k]; return st, r
    def exp2(cx, nm, a, st, I):
        x = a[0]
        if z3.is_expr(x): x = z3.simplify(x)
        v = float(x.as_fraction()) if hasattr(x, 'as_fraction') else None
        if v is None:
            try: v = float(x)
            except Exception: v = eval(str(x).replace('*(2**', '*(2.0**')) if z3.is_expr(x) else None
        cx.ev_exp.append(v)
        return st, (z3.FPVal(2.0 ** v, D64) if fp else __import__('fractions').Fraction(2) ** int(v))
    def a2t(cx, nm, a, st, I):
        n = len(cx.ev_u); cx.ev_a2t.append((read3(cx, a[0], n, st), a[1], a[2]))
        for i in range(n): cx.store(cx.padd(a[0], 8 * i), cx.ev_h[i], int_t(64), st)
        return st, None
    def unt(cx, nm, a, st, I):
        n = len(cx.ev_u); cx.ev_unt.append((read3(cx, a[0], n, st), a[2], a[3]))
        for i in range(n): cx.store(cx.padd(a[1], 8 * i), cx.ev_r[i], int_t(64), st)
        return st, None
    return [(R(r'^Omega_h::clamp\('), clamp), (R(r'^(std::)?exp2'), exp2), (R(r'^Omega_h::hilbert::AxestoTranspose\('), a2t), (R(r'^Omega_h::hilbert::untranspose\('), unt)]
def read3(cx, p, n, st):
    from rt import int_t
    return [cx.load(cx.padd(p, 8 * i), int_t(64), st) for i in range(n)]
def events(e, u, h, r):
    cx = e.cx; cx.ev_clamp, cx.ev_exp, cx.ev_a2t, cx.ev_unt = [], [], [], []; cx.ev_u, cx.ev_h, cx.ev_r = u, h, r
def reals(e, n, name, vals):
    from rt import RecC
    p = e.cx.new_obj(e.st, name, 8 * n); e.st.objs[p.obj] = RecC({8 * i: (8, v, 'f') for i, v in enumerate(vals)}); return p
def grid(n, b):
    """bit-precise: the grid cell of a clamped coordinate"""
    def g(e):
        u = [z3.FP('u%d' % i, D64) for i in range(n)]; z, o = z3.FPVal(0.0, D64), z3.FPVal(1.0, D64)
        for x in u: e.assume(z3.And(z3.fpLEQ(z, x), z3.fpLEQ(x, o)))
        h = [BV('h%d' % i, 64) for i in range(n)]; r = [BV('r%d' % i, 64) for i in range(n)]; events(e, u, h, r)
        A = reals(e, n * n + n, 'affine', [z3.FPVal(1.0 if i < n * n and i % (n + 1) == 0 else 0.0, D64) for i in range(n * n + n)])
        v = reals(e, n, 'point', [z3.FPVal(0.5, D64)] * n); out = cells(e, [BV('y%d' % i, 64) for i in range(n)], 'key')
        e.call('w_fs%d' % n, A, b, v, out); cx = e.cx
        e.prove('every coordinate is clamped, then one conversion to the curve and one regrouping', z3.BoolVal((len(cx.ev_clamp), len(cx.ev_a2t), len(cx.ev_unt)) == (n, 1, 1)))
        X, bb, nn = cx.ev_a2t[0]; Y, bb2, nn2 = cx.ev_unt[0]
        e.prove('with the resolution and the dimension of the grid', AND(asbv(bb, 32) == b, asbv(nn, 32) == n, asbv(bb2, 32) == b, asbv(nn2, 32) == n))
        for i in range(n):
            x = asbv(X[i], 64); t = z3.fpMul(z3.RNE(), u[i], z3.FPVal(2.0 ** b, D64)); cell = z3.fpToUBV(z3.RTZ(), t, z3.BitVecSort(64))
            e.prove('coordinate %d: cell of the grid' % i, x == z3.If(z3.fpEQ(u[i], o), z3.BitVecVal((1 << b) - 1, 64), cell))
            e.prove('coordinate %d: in the grid' % i, z3.LShR(x, b) == 0)
        e.prove('the regrouping is applied to the curve position', AND(*[asbv(Y[i], 64) == h[i] for i in range(n)]))
        e.prove('the key is the regrouped position', eqs(read(e, out, n), r))
    return g
def kern(n):
    """one point of dists_from_coords: which point, which box, where the key goes"""
    def g(e):
        from rt import R, dbl_t, int_t, Aggr, ArrC, ABase
        from p04 import kernel, fire, sized
        cx = e.cx; N = 2**31 - 1; np_ = e.int('npts', 1, N // n)
        c = e.array('coords', np_ * n, 8, 'f'); ret = e.sret(); x = e.ivar('x', 0, np_)
        u = [e.real('u%d' % i) for i in range(n)]; h = [e.int('h%d' % i, 0, 2**52 - 1) for i in range(n)]; r = [e.int('r%d' % i, 0, 2**52 - 1) for i in range(n)]
        for t in u: e.assume(z3.And(0 <= t, t <= 1))
        events(e, u, h, r)
        mn = [e.real('min%d' % i) for i in range(n)]; mx = [e.real('max%d' % i) for i in range(n)]; seen = []
        def bbox(cx, nm, a, st, I):
            seen.append(a[-1])
            if len(a) == 2:
                for i, v in enumerate(mn + mx): cx.store(cx.padd(a[0], 8 * i), v, dbl_t(), st)
                return st, None
            return st, Aggr(mn + mx)
        cx.contracts = [(R(r'Omega_h::find_bounding_box<\d>\('), bbox)] + list(cx.contracts); cx.ccache.clear()
        fn, clo, new = kernel(e, 'Omega_h::hilbert::dists_from_coords_dim<%d>' % n, [ret, c], x)
        o = sized(e, new, cx.muli(8, cx.muli(n, np_))); e.st.objs[o] = ArrC(8, 'i', ABase(e.decl('dists0', np_ * n, 8)))
        d = [b - a for a, b in zip(mn, mx)]; w = e.real('w')      # side of the box: the largest extent
        e.assume(z3.And(z3.Or(*[w == t for t in d]), *[w >= t for t in d])); e.assume(w > 0); e.assume(z3.And(*[t >= 0 for t in d]))
        f = fire(e, fn, clo, x)
        e.prove('the box is the bounding box of the points, found once', z3.BoolVal(len(seen) == 1))
        e.prove('one conversion per point', z3.BoolVal((len(cx.ev_clamp), len(cx.ev_a2t), len(cx.ev_unt)) == (n, 1, 1)))
        for i in range(n):
            t = cx.zf(cx.ev_clamp[i][0]); p = c(x * n + i)
            e.prove('coordinate %d is scaled into the box' % i, t * w == p - mn[i])
            e.prove('the limits are zero and one', z3.And(cx.zf(cx.ev_clamp[i][1]) == 0, cx.zf(cx.ev_clamp[i][2]) == 1))
            # p is in the bounding box (contract of find_bounding_box)
            e.prove('points of the box land in the unit box, coordinate %d' % i, z3.Implies(z3.And(t * w == p - mn[i], mn[i] <= p, p <= mx[i], w >= d[i]), z3.And(0 <= t, t <= 1)))
        X, bb, nn = cx.ev_a2t[0]; Y, bb2, nn2 = cx.ev_unt[0]
        e.prove('at full resolution', z3.And(cx.zi(bb) == 52, cx.zi(bb2) == 52, cx.zi(nn) == n, cx.zi(nn2) == n))
        rd = lambda j: cx.zi(cx.typed(o, e.st.objs[o], int_t(64), e.st).c.read(cx.norm(j), cx))
        for i in range(n): e.prove('word %d of the key is stored for the point' % i, rd(x * n + i) == r[i])
        z = e.ivar('z', 0, np_ * n); e.prove('keys of other points are left alone', z3.Implies(z3.Or(z < x * n, z >= x * n + n), rd(z) == z3.Function('dists0', z3.IntSort(), z3.IntSort())(z)))
    return g
def dispatch(n):
    def g(e):
        from rt import R
        cx = e.cx; ev = []
        k = e.int('nk', 0, 2**31 - 1); keys = e.array('keys', k, 8); perm = e.array('perm', k); c = e.array('coords', k, 8, 'f'); ret = e.sret()
        def give(src):
            def f(cx, nm, a, st, I):
                ev.append((nm, a)); from rt import ptr_t
                for o in (0, 8): cx.store(cx.padd(a[0], o), cx.load(cx.padd(src.ptr, o), ptr_t(), st), ptr_t(), st)
                return st, None
            return f
        cx.contracts = [(R(r'Omega_h::hilbert::dists_from_coords_dim<'), give(keys)), (R(r'Omega_h::sort_by_keys<long>'), give(perm))] + list(cx.contracts); cx.ccache.clear()
        e.call('Omega_h::hilbert::sort_coords', ret, c, n)
        e.prove('keys of this dimension, then one sort', z3.BoolVal(len(ev) == 2 and 'dists_from_coords_dim<%d>' % n in dem(ev[0][0]) and 'sort_by_keys' in dem(ev[1][0])))
        L, rd = e.out(ret); i = e.ivar('i', 0, k); arr = lambda h: cx.load(cx.padd(h, 8), __import__('rt').ptr_t(), e.st)
        e.prove('the sorted order of the points is returned', z3.And(L == k, rd(i) == perm(i)))
        e.prove('the sort is of those keys, as wide as the dimension', z3.And(z3.BoolVal(cx.veq(arr(ev[1][1][1]), arr(keys.ptr)) is True), cx.zi(ev[1][1][2]) == n))
        e.prove('the keys are of those points', z3.BoolVal(cx.veq(arr(ev[0][1][1]), arr(c.ptr)) is True))
    return g
def box(n):
    """find_bounding_box: the step of the reduction, and that it runs over every point"""
    def g(e):
        from rt import R, dbl_t
        cx = e.cx; a = [e.real('a%d' % i) for i in range(2 * n)]; b = [e.real('b%d' % i) for i in range(2 * n)]
        pa, pb, pr = reals(e, 2 * n, 'boxa', a), reals(e, 2 * n, 'boxb', b), reals(e, 2 * n, 'boxr', [z3.RealVal(0)] * (2 * n))
        e.call('w_unite%d' % n, pa, pb, pr); r = [cx.zf(cx.load(cx.padd(pr, 8 * i), dbl_t(), e.st)) for i in range(2 * n)]
        e.prove('the union holds both boxes and no more', AND(*[z3.And(r[i] <= a[i], r[i] <= b[i], z3.Or(r[i] == a[i], r[i] == b[i]), r[n + i] >= a[n + i], r[n + i] >= b[n + i], z3.Or(r[n + i] == a[n + i], r[n + i] == b[n + i])) for i in range(n)]))
        np_ = e.int('npts', 0, (2**31 - 1) // n); c = e.array('coords', np_ * n, 8, 'f'); x = e.ivar('x', 0, np_)
        pt = reals(e, 2 * n, 'boxp', [z3.RealVal(0)] * (2 * n)); e.call('w_point%d' % n, c, x, pt)
        e.prove('the box of a point is the point', AND(*[z3.And(cx.zf(cx.load(cx.padd(pt, 8 * i), dbl_t(), e.st)) == c(x * n + i), cx.zf(cx.load(cx.padd(pt, 8 * (n + i)), dbl_t(), e.st)) == c(x * n + i)) for i in range(n)]))
        ev = []; fin = [e.real('f%d' % i) for i in range(2 * n)]
        def tr(cx, nm, a, st, I):
            ev.append((nm, a, st))
            if '::UniteOp' not in dem(nm) or 'GetBBoxOp' not in dem(nm): raise Unsupported('other reduction')
            if n == 1:      # a box of two numbers travels by value
                p = reals(e, 2, 'init', [cx.zf(a[2]), cx.zf(a[3])]); st.objs[p.obj] = e.st.objs[p.obj]; ev[-1] = (nm, [None, a[0], a[1], p], st)
                from rt import Aggr
                return st, Aggr(fin)
            for i, v in enumerate(fin): cx.store(cx.padd(a[0], 8 * i), v, dbl_t(), st)
            return st, None
        cx.contracts = [(R(r'Omega_h::transform_reduce<'), tr)] + list(cx.contracts); cx.ccache.clear()
        out = reals(e, 2 * n, 'found', [z3.RealVal(0)] * (2 * n)); e.call('w_find%d' % n, c, out)
        e.prove('one reduction', z3.BoolVal(len(ev) == 1)); nm, a, st = ev[0]
        it = lambda v: cx.zi(v if not hasattr(v, 'obj') else cx.load(v, __import__('rt').int_t(32), st))
        e.prove('over every point', z3.And(it(a[1]) == 0, it(a[2]) == np_))
        ini = [cx.zf(cx.load(cx.padd(a[3], 8 * i), dbl_t(), st)) for i in range(2 * n)]
        e.prove('starting from the empty box', AND(*[z3.And(ini[i] >= z3.RealVal(2) ** 1023, ini[n + i] <= -z3.RealVal(2) ** 1023) for i in range(n)]))
        e.prove('its result is returned', AND(*[cx.zf(cx.load(cx.padd(out, 8 * i), dbl_t(), e.st)) == fin[i] for i in range(2 * n)]))
    return g
H2 = H + '''#include <Omega_h_bbox.hpp>
#include "Omega_h_bbox.cpp"
double w_clamp(double x) { return clamp(x, 0.0, 1.0); }
''' + ''.join('''void w_fs%d(Affine<%d> const* a, int b, Vector<%d> const* v, Few<hilbert::coord_t, %d>* r) { *r = hilbert::from_spatial(*a, b, *v); }
void w_unite%d(BBox<%d> const* a, BBox<%d> const* b, BBox<%d>* r) { *r = UniteOp<%d>()(*a, *b); }
void w_point%d(Reals const* c, int i, BBox<%d>* r) { *r = GetBBoxOp<%d>(*c)(i); }
void w_find%d(Reals const* c, BBox<%d>* r) { *r = find_bounding_box<%d>(*c); }
''' % ((n,) * 15) for n in (1, 2, 3))
B = list(range(1, 53)); TASKS = []
def many(f, n, bs):
    def g(e):
        for b in bs:
            if len(bs) > 1: e.st = type(e.st)({}, ())
            old = e.prove; e.prove = lambda nm, *a, **k: old('%d bits: ' % b + nm, *a, **k)
            try: f(n, b)(e)
            finally: e.prove = old
    return g
for n in (1, 2, 3):
    for lo, hi in ((1, 20), (21, 32), (33, 40), (41, 46), (47, 52)):
        bs = [b for b in B if lo <= b <= hi]; t = '%dD, %d to %d bits' % (n, lo, hi)
        TASKS += [Task('curve position and back, ' + t, many(roundtrip, n, bs), extra=H, mode='bv'), Task('neighbours along the curve, ' + t, many(neighbours, n, bs), extra=H, mode='bv'), Task('regrouped keys, ' + t, many(regroup, n, bs), extra=H, mode='bv')]
    TASKS += [Task('grid cell of a point, %dD' % n, grid(n, 52), extra=H2, mode='bv', fp='fp', contracts=lambda: gridc(True)), Task('keys of all points, %dD' % n, kern(n), ('hilbert', 'array'), contracts=lambda: gridc(False)), Task('sort_coords, %dD' % n, dispatch(n), ('hilbert', 'array')), Task('bounding box, %dD' % n, box(n), ('array',), extra=H2)]
TASKS.append(Task('clamping', clampfp, extra=H2, mode='bv', fp='fp'))
PROP = Prop('P10', TASKS, native=[Native('hilbert', ['hilbert'])], assumptions=['the chain of per-level lemmas is composed by induction over the levels (the composition of the round trip is itself an obligation over uninterpreted steps)', 'the box scaling is proved over exact reals, the conversion of a scaled coordinate to its grid cell bit-precisely over IEEE doubles', 'the bounding box of the points has positive extent and coordinates are finite', 'std::exp2 of a whole number is the exact power of two', 'a serial reduction applies its step to every element in turn'])
